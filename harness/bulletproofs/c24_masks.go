package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c24by reports whether b is a moved by d times e, in either direction.
func c24by(g group.Group, a, b, e group.Element, d *big.Int) bool {
	m := g.Element().Scale(e, d)
	x := g.Element().Subtract(b, a)
	if x.IsEqual(m) {
		return true
	}
	y := g.Element().Subtract(a, b)
	return y.IsEqual(m)
}

// c24matrix repeats run with each of its draws made afresh. First are the
// commitments released first, each masked along the given base; s is the
// commitment to the blinding vectors, t are released after the first challenge.
func c24matrix(g group.Group, h group.Element, bases []group.Element, run func() (first []group.Element, s group.Element, t []group.Element)) {
	from := len(rt.Draws())
	first, s, t := run()
	to := len(rt.Draws())
	maskF, maskT := make([]int, len(first)), make([]int, len(t))
	maskS := make([]int, len(bases))
	for j := from; j < to; j++ {
		at := len(rt.Draws())
		rt.Redraw(from, to, j)
		f2, s2, t2 := run()
		d := new(big.Int).Sub(rt.Draws()[at+j-from], rt.Draws()[j])
		rt.Assume(len(rt.Draws())-at == to-from && d.Sign() != 0)
		moved, which := 0, 0
		for i := range first {
			if !first[i].IsEqual(f2[i]) {
				moved, which = moved+1, i
			}
		}
		sMoved := !s.IsEqual(s2)
		switch {
		case moved == 1 && !sMoved:
			if c24by(g, first[which], f2[which], h, d) {
				maskF[which]++
			}
		case moved == 0 && sMoved:
			for i := range bases {
				if c24by(g, s, s2, bases[i], d) {
					maskS[i]++
				}
			}
		case moved == 0 && !sMoved:
			n, k := 0, 0
			for i := range t {
				if !t[i].IsEqual(t2[i]) {
					n, k = n+1, i
				}
			}
			if n == 1 && c24by(g, t[k], t2[k], h, d) {
				maskT[k]++
			}
		}
	}
	ok := true
	for i := range maskF {
		ok = ok && maskF[i] > 0
	}
	rt.Assert("each value commitment and A has a mask of its own", ok)
	ok = true
	for i := range maskS {
		ok = ok && maskS[i] > 0
	}
	rt.Assert("S commits to a fresh blinding value along each generator", ok)
	ok = true
	for i := range maskT {
		ok = ok && maskT[i] > 0
	}
	rt.Assert("T1 and T2 have a mask of their own", ok)
}

func c24bases(p BulletProofSetupParams) []group.Element {
	return append(append([]group.Element{p.H}, p.Gg...), p.Hh...)
}

// Masks of the range proof, of the first proof and of a later one.
func verif_C24_range() {
	rt.Bound("P-256, P-384 and ristretto255, n=2, every secret in [0,4), first or second proof made")
	g := vgroup([]int{0, 1, 3}[rt.Choice("curve", 3)])
	params := vsetup(2, g)
	secret := rt.Big("secret", new(big.Int), big.NewInt(3))
	if rt.Bool("later") {
		_, _, err := Prove(secret, params)
		rt.Assert("proving succeeds", err == nil)
	}
	c24matrix(g, params.H, c24bases(params), func() ([]group.Element, group.Element, []group.Element) {
		p, _, err := Prove(secret, params)
		rt.Assert("proving succeeds", err == nil)
		return []group.Element{p.V, p.A}, p.S, []group.Element{p.T1, p.T2}
	})
	rt.Reach("done")
}

// Masks of the aggregated proof.
func verif_C24_multi() {
	rt.Bound("P-256, n=4, two 2-bit values, first or second proof made")
	g := vgroup(0)
	params := vsetup(4, g)
	v := []*big.Int{rt.Big("v0", new(big.Int), big.NewInt(3)), rt.Big("v1", new(big.Int), big.NewInt(3))}
	if rt.Bool("later") {
		_, _, err := MultiProve(v, params)
		rt.Assert("proving succeeds", err == nil)
	}
	c24matrix(g, params.H, c24bases(params), func() ([]group.Element, group.Element, []group.Element) {
		p, _, err := MultiProve(v, params)
		rt.Assert("proving succeeds", err == nil)
		return append(append([]group.Element{}, p.Vs...), p.A), p.S, []group.Element{p.T1, p.T2}
	})
	rt.Reach("done")
}

// Every mask can take every scalar value and no other.
func verif_C24_uniform() {
	rt.Bound("every curve, n=2 (two values of 1 bit in the aggregated proof), every value of the draws")
	g := vcurve()
	params := vsetup(2, g)
	max := new(big.Int).Sub(g.N(), big.NewInt(1))
	v := rt.Big("v", new(big.Int), max)
	from := len(rt.Draws())
	multi := rt.Bool("multi")
	forced := rt.Bool("forced")
	if forced {
		rt.ForceDraws(v)
	}
	need := 9
	if multi {
		_, _, _ = MultiProve([]*big.Int{big.NewInt(1), big.NewInt(0)}, params)
		need = 10
	} else {
		_, _, _ = Prove(big.NewInt(2), params)
	}
	rt.ForceDraws(nil)
	draws := rt.Draws()[from:]
	all := true
	for _, d := range draws {
		if forced {
			all = all && d.Cmp(v) == 0
		} else {
			all = all && d.Sign() >= 0 && d.Cmp(max) <= 0
		}
	}
	rt.Assert("enough masks are drawn", len(draws) >= need)
	if forced {
		rt.Assert("every mask can be every scalar", all)
	} else {
		rt.Assert("every mask is a scalar", all)
	}
	rt.Reach("done")
}

// An unreduced response would show the size of the mask and secret it is made of.
func verif_C24_reduced() {
	rt.Bound("every curve, n = 2 and two values of 1 bit in the aggregated proof, every secret")
	g := vcurve()
	p := vsetup(2, g)
	in := func(v ...*big.Int) bool {
		for _, x := range v {
			if x.Sign() < 0 || x.Cmp(g.N()) >= 0 {
				return false
			}
		}
		return true
	}
	if rt.Bool("multi") {
		v := []*big.Int{rt.Big("v0", new(big.Int), big.NewInt(1)), rt.Big("v1", new(big.Int), big.NewInt(1))}
		a, _, err := MultiProve(v, p)
		rt.Assert("proving succeeds", err == nil)
		rt.Assert("the responses are reduced", in(a.Taux, a.Mu, a.Tprime))
	} else {
		a, _, err := Prove(rt.Big("secret", new(big.Int), big.NewInt(3)), p)
		rt.Assert("proving succeeds", err == nil)
		rt.Assert("the responses are reduced", in(a.Taux, a.Mu, a.Tprime))
	}
	rt.Reach("done")
}
