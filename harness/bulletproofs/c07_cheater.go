package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c07free is a number modulo the group order of the attacker's choice.
func c07free(name string, g group.Group) *big.Int {
	return rt.Big(name, new(big.Int), new(big.Int).Sub(g.N(), big.NewInt(1)))
}

// c07element is an element of the attacker's choice over G, H, g0 and h0.
func c07element(name string, p BulletProofSetupParams) group.Element {
	g := p.GP
	e := g.Element().BaseScale(c07free(name+".G", g))
	for i, b := range []group.Element{p.H, p.Gg[0], p.Hh[0]} {
		e = g.Element().Add(e, g.Element().Scale(b, c07free(name+"."+string(rune('H'+i)), g)))
	}
	return e
}

// c07cheat starts an aggregated proof with commitments to m values of which
// one is out of range, and returns values and blindings.
func c07cheat(p BulletProofSetupParams, m int) (proof MultiBulletProof, v, gamma []*big.Int) {
	g := p.GP
	bad := rt.Choice("bad", m)
	top := vpow2(p.N / int64(m))
	proof.Params = p
	for j := 0; j < m; j++ {
		k := string(rune('0' + j))
		lo, hi := new(big.Int), new(big.Int).Sub(g.N(), big.NewInt(1))
		if j == bad {
			lo = top
		}
		v = append(v, rt.Big("v"+k, lo, hi))
		gamma = append(gamma, c07free("gamma"+k, g))
		proof.Vs = append(proof.Vs, g.Element().Add(g.Element().BaseScale(v[j]), g.Element().Scale(p.H, gamma[j])))
	}
	return
}

func c07challenges(proof *MultiBulletProof) (x, y, z *big.Int) {
	first := append(append([]group.Element{}, proof.Vs...), proof.A, proof.S)
	y, z, _ = HashBP(first...)
	x, _, _ = HashBP(append(first, proof.T1, proof.T2)...)
	return
}

// c07weighted is the sum of z^(2+j) v_j.
func c07weighted(v []*big.Int, z, N *big.Int) *big.Int {
	r, w := new(big.Int), new(big.Int).Mul(z, z)
	for j := range v {
		r.Add(r, new(big.Int).Mul(w, v[j]))
		w = new(big.Int).Mod(new(big.Int).Mul(w, z), N)
	}
	return r.Mod(r, N)
}

// c07delta0 is (z - z^2)<1, y^n> - sum of z^(3+j)<1, 2^(n/m)>.
func c07delta0(p BulletProofSetupParams, m int, y, z *big.Int) *big.Int {
	N := p.GP.N()
	sum, pow := new(big.Int), big.NewInt(1)
	for i := int64(0); i < p.N; i++ {
		sum.Add(sum, pow)
		pow = new(big.Int).Mod(new(big.Int).Mul(pow, y), N)
	}
	z2 := new(big.Int).Mul(z, z)
	d := new(big.Int).Mul(new(big.Int).Sub(z, z2), sum)
	all := make([]*big.Int, m)
	for j := range all {
		all[j] = new(big.Int).Sub(vpow2(p.N/int64(m)), big.NewInt(1))
	}
	d.Sub(d, new(big.Int).Mul(z, c07weighted(all, z, N)))
	return d.Mod(d, N)
}

// c07polynomial is base + x c1 + x^2 c2.
func c07polynomial(base, c1, c2, x, N *big.Int) *big.Int {
	r := new(big.Int).Mul(x, c1)
	r.Add(r, new(big.Int).Mul(new(big.Int).Mul(x, x), c2))
	return r.Mod(r.Add(r, base), N)
}

func c07inner(p BulletProofSetupParams, y *big.Int, a, b []*big.Int, c *big.Int) InnerProductProof {
	hp := c07generators(p, y)
	ipp, err := setupInnerProduct(p.Gg, hp, p.N, p.GP)
	rt.Assert("inner-product set-up succeeds", err == nil)
	P := p.GP.Identity()
	for i := range a {
		P = p.GP.Element().Add(P, p.GP.Element().Scale(p.Gg[i], a[i]))
		P = p.GP.Element().Add(P, p.GP.Element().Scale(hp[i], b[i]))
	}
	ip, err := proveInnerProduct(a, b, P, c, ipp)
	rt.Assert("inner-product prover succeeds", err == nil)
	return ip
}

// c07generators are the generators h_i^(y^-i).
func c07generators(p BulletProofSetupParams, y *big.Int) []group.Element {
	inv := new(big.Int).ModInverse(y, p.GP.N())
	pow := big.NewInt(1)
	r := make([]group.Element, p.N)
	for i := range r {
		r[i] = p.GP.Element().Scale(p.Hh[i], pow)
		pow = new(big.Int).Mod(new(big.Int).Mul(pow, inv), p.GP.N())
	}
	return r
}

// The polynomial equation and the inner product hold, but the vectors are not
// those that A and S commit to.
func verif_C07_vectors() {
	rt.Bound("P-256, (n, m) = (2, 1), (2, 2), (4, 2): any commitments A, S, T1, T2 over G, H, g0, h0, identity and equal ones included; any mu; t' and taux fit, the inner-product vectors do not")
	c := rt.Choice("size", 3)
	m := []int{1, 2, 2}[c]
	p := vsetup([]int64{2, 2, 4}[c], group.P256())
	g := p.GP
	N := g.N()
	proof, v, gamma := c07cheat(p, m)
	proof.A = c07element("A", p)
	proof.S = c07element("S", p)
	t1, t2, tau1, tau2 := c07free("t1", g), c07free("t2", g), c07free("tau1", g), c07free("tau2", g)
	proof.T1 = g.Element().Add(g.Element().BaseScale(t1), g.Element().Scale(p.H, tau1))
	proof.T2 = g.Element().Add(g.Element().BaseScale(t2), g.Element().Scale(p.H, tau2))
	x, y, z := c07challenges(&proof)
	base := new(big.Int).Add(c07weighted(v, z, N), c07delta0(p, m, y, z))
	proof.Tprime = c07polynomial(base, t1, t2, x, N)
	proof.Taux = c07polynomial(c07weighted(gamma, z, N), tau1, tau2, x, N)
	proof.Mu = c07free("mu", g)
	a, b := make([]*big.Int, p.N), make([]*big.Int, p.N)
	for i := range a {
		a[i], b[i] = new(big.Int), new(big.Int)
	}
	a[0], b[0] = proof.Tprime, big.NewInt(1)
	proof.InnerProductProof = c07inner(p, y, a, b, proof.Tprime)
	ok, err := proof.Verify()
	rt.Assert("vectors that A and S do not commit to are rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// The vectors are the committed ones, but their product is not the value of
// the polynomial of T1 and T2.
func verif_C07_polynomial() {
	rt.Bound("P-256, (n, m) = (2, 1), (2, 2): committed vectors of any bits, any masks, any T1, T2 over G and H, equal ones included; any taux; the vectors fit, t' does not fit the commitments")
	m := 1 + rt.Choice("m", 2)
	p := vsetup(2, group.P256())
	g := p.GP
	N := g.N()
	proof, _, _ := c07cheat(p, m)
	alpha, rho := c07free("alpha", g), c07free("rho", g)
	proof.A, proof.S = g.Element().Scale(p.H, alpha), g.Element().Scale(p.H, rho)
	var bits, sl, sr []*big.Int
	for i := int64(0); i < p.N; i++ {
		k := string(rune('0' + i))
		bits = append(bits, big.NewInt(int64(rt.Choice("bit"+k, 2))))
		sl = append(sl, c07free("sl"+k, g))
		sr = append(sr, c07free("sr"+k, g))
		ar := new(big.Int).Sub(bits[i], big.NewInt(1))
		proof.A = g.Element().Add(proof.A, g.Element().Add(g.Element().Scale(p.Gg[i], bits[i]), g.Element().Scale(p.Hh[i], ar)))
		proof.S = g.Element().Add(proof.S, g.Element().Add(g.Element().Scale(p.Gg[i], sl[i]), g.Element().Scale(p.Hh[i], sr[i])))
	}
	proof.T1 = g.Element().Add(g.Element().BaseScale(c07free("t1", g)), g.Element().Scale(p.H, c07free("tau1", g)))
	proof.T2 = g.Element().Add(g.Element().BaseScale(c07free("t2", g)), g.Element().Scale(p.H, c07free("tau2", g)))
	x, y, z := c07challenges(&proof)
	a, b := make([]*big.Int, p.N), make([]*big.Int, p.N)
	pow, t := big.NewInt(1), new(big.Int)
	w := new(big.Int).Mul(z, z)
	per := int(p.N) / m
	for i := range a {
		// l = aL - z + sL x, r = y^i (aR + z + sR x) + z^(2+j) 2^(i-jk)
		a[i] = new(big.Int).Sub(bits[i], z)
		a[i].Mod(a[i].Add(a[i], new(big.Int).Mul(sl[i], x)), N)
		r := new(big.Int).Add(new(big.Int).Sub(bits[i], big.NewInt(1)), z)
		r.Add(r, new(big.Int).Mul(sr[i], x)).Mul(r, pow)
		if i > 0 && i%per == 0 {
			w = new(big.Int).Mod(new(big.Int).Mul(w, z), N)
		}
		r.Add(r, new(big.Int).Mul(w, vpow2(int64(i%per))))
		b[i] = r.Mod(r, N)
		t.Add(t, new(big.Int).Mul(a[i], b[i]))
		pow = new(big.Int).Mod(new(big.Int).Mul(pow, y), N)
	}
	proof.Tprime = t.Mod(t, N)
	proof.Mu = new(big.Int).Mod(new(big.Int).Add(alpha, new(big.Int).Mul(rho, x)), N)
	proof.Taux = c07free("taux", g)
	proof.InnerProductProof = c07inner(p, y, a, b, proof.Tprime)
	ok, err := proof.Verify()
	rt.Assert("a product that does not fit the committed values is rejected", !ok || err != nil)
	rt.Reach("rejected")
}
