package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c05free is a number modulo the group order of the attacker's choice.
func c05free(name string, g group.Group) *big.Int {
	return rt.Big(name, new(big.Int), new(big.Int).Sub(g.N(), big.NewInt(1)))
}

// c05element is an element of the attacker's choice over G, H, g0 and h0.
func c05element(name string, p BulletProofSetupParams) group.Element {
	g := p.GP
	e := g.Element().BaseScale(c05free(name+".G", g))
	for i, b := range []group.Element{p.H, p.Gg[0], p.Hh[0]} {
		e = g.Element().Add(e, g.Element().Scale(b, c05free(name+"."+string(rune('H'+i)), g)))
	}
	return e
}

// c05cheat starts a proof with a commitment to v, whose blinding it returns.
func c05cheat(p BulletProofSetupParams, v *big.Int) (proof BulletProof, gamma *big.Int) {
	g := p.GP
	gamma = c05free("gamma", g)
	proof.Params = p
	proof.V = g.Element().Add(g.Element().BaseScale(v), g.Element().Scale(p.H, gamma))
	return
}

func c05challenges(proof *BulletProof) (x, y, z *big.Int) {
	y, z, _ = HashBP(proof.V, proof.A, proof.S)
	x, _, _ = HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
	return
}

// c05delta0 is (z - z^2)<1, y^n> - z^3<1, 2^n>.
func c05delta0(n int64, y, z, N *big.Int) *big.Int {
	sum, pow := new(big.Int), big.NewInt(1)
	for i := int64(0); i < n; i++ {
		sum.Add(sum, pow)
		pow = new(big.Int).Mod(new(big.Int).Mul(pow, y), N)
	}
	z2 := new(big.Int).Mul(z, z)
	d := new(big.Int).Mul(new(big.Int).Sub(z, z2), sum)
	two := new(big.Int).Sub(vpow2(n), big.NewInt(1))
	d.Sub(d, new(big.Int).Mul(new(big.Int).Mul(z2, z), two))
	return d.Mod(d, N)
}

// c05polynomial is z^2 v + delta + x t1 + x^2 t2.
func c05polynomial(base, c1, c2, x, N *big.Int) *big.Int {
	r := new(big.Int).Mul(x, c1)
	r.Add(r, new(big.Int).Mul(new(big.Int).Mul(x, x), c2))
	return r.Mod(r.Add(r, base), N)
}

func c05inner(p BulletProofSetupParams, y *big.Int, a, b []*big.Int, c *big.Int) InnerProductProof {
	hp := c05generators(p, y)
	ipp, err := setupInnerProduct(p.Gg, hp, p.N, p.GP)
	rt.Assert("inner-product set-up succeeds", err == nil)
	P := p.GP.Identity()
	for i := range a {
		P = p.GP.Element().Add(P, p.GP.Element().Scale(p.Gg[i], a[i]))
		P = p.GP.Element().Add(P, p.GP.Element().Scale(hp[i], b[i]))
	}
	ip, err := proveInnerProduct(a, b, P, c, ipp)
	rt.Assert("inner-product prover succeeds", err == nil)
	return ip
}

// c05generators are the generators h_i^(y^-i).
func c05generators(p BulletProofSetupParams, y *big.Int) []group.Element {
	inv := new(big.Int).ModInverse(y, p.GP.N())
	pow := big.NewInt(1)
	r := make([]group.Element, p.N)
	for i := range r {
		r[i] = p.GP.Element().Scale(p.Hh[i], pow)
		pow = new(big.Int).Mod(new(big.Int).Mul(pow, inv), p.GP.N())
	}
	return r
}

// The polynomial equation and the inner product hold, but the vectors are not
// those that A and S commit to.
func verif_C05_vectors() {
	rt.Bound("P-256, n = 1, 2: any commitments A, S, T1, T2 over G, H, g0, h0, identity and equal ones included; any mu; t' and taux fit, the inner-product vectors do not")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	p := vsetup(n, group.P256())
	g := p.GP
	N := g.N()
	v := rt.Big("v", vpow2(n), new(big.Int).Sub(N, big.NewInt(1)))
	proof, gamma := c05cheat(p, v)
	proof.A = c05element("A", p)
	proof.S = c05element("S", p)
	t1, t2, tau1, tau2 := c05free("t1", g), c05free("t2", g), c05free("tau1", g), c05free("tau2", g)
	proof.T1 = g.Element().Add(g.Element().BaseScale(t1), g.Element().Scale(p.H, tau1))
	proof.T2 = g.Element().Add(g.Element().BaseScale(t2), g.Element().Scale(p.H, tau2))
	x, y, z := c05challenges(&proof)
	z2 := new(big.Int).Mul(z, z)
	base := new(big.Int).Add(new(big.Int).Mul(z2, v), c05delta0(n, y, z, N))
	proof.Tprime = c05polynomial(base, t1, t2, x, N)
	proof.Taux = c05polynomial(new(big.Int).Mul(z2, gamma), tau1, tau2, x, N)
	proof.Mu = c05free("mu", g)
	a, b := []*big.Int{proof.Tprime, new(big.Int)}[:n], []*big.Int{big.NewInt(1), new(big.Int)}[:n]
	proof.InnerProductProof = c05inner(p, y, a, b, proof.Tprime)
	ok, err := proof.Verify()
	rt.Assert("vectors that A and S do not commit to are rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// The vectors are the committed ones, but their product is not the value of
// the polynomial of T1 and T2.
func verif_C05_polynomial() {
	rt.Bound("P-256, n = 1, 2: committed vectors of any bits, any masks, any T1, T2 over G and H, equal ones included; any taux; the vectors fit, t' does not fit V")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	p := vsetup(n, group.P256())
	g := p.GP
	N := g.N()
	v := rt.Big("v", vpow2(n), new(big.Int).Sub(N, big.NewInt(1)))
	proof, _ := c05cheat(p, v)
	alpha, rho := c05free("alpha", g), c05free("rho", g)
	proof.A, proof.S = g.Element().Scale(p.H, alpha), g.Element().Scale(p.H, rho)
	var bits, sl, sr []*big.Int
	for i := int64(0); i < n; i++ {
		k := string(rune('0' + i))
		bits = append(bits, big.NewInt(int64(rt.Choice("bit"+k, 2))))
		sl = append(sl, c05free("sl"+k, g))
		sr = append(sr, c05free("sr"+k, g))
		ar := new(big.Int).Sub(bits[i], big.NewInt(1))
		proof.A = g.Element().Add(proof.A, g.Element().Add(g.Element().Scale(p.Gg[i], bits[i]), g.Element().Scale(p.Hh[i], ar)))
		proof.S = g.Element().Add(proof.S, g.Element().Add(g.Element().Scale(p.Gg[i], sl[i]), g.Element().Scale(p.Hh[i], sr[i])))
	}
	proof.T1 = g.Element().Add(g.Element().BaseScale(c05free("t1", g)), g.Element().Scale(p.H, c05free("tau1", g)))
	proof.T2 = g.Element().Add(g.Element().BaseScale(c05free("t2", g)), g.Element().Scale(p.H, c05free("tau2", g)))
	x, y, z := c05challenges(&proof)
	a, b := make([]*big.Int, n), make([]*big.Int, n)
	pow, t := big.NewInt(1), new(big.Int)
	for i := range a {
		// l = aL - z + sL x, r = y^i (aR + z + sR x) + z^2 2^i
		a[i] = new(big.Int).Sub(bits[i], z)
		a[i].Mod(a[i].Add(a[i], new(big.Int).Mul(sl[i], x)), N)
		r := new(big.Int).Add(new(big.Int).Sub(bits[i], big.NewInt(1)), z)
		r.Add(r, new(big.Int).Mul(sr[i], x)).Mul(r, pow)
		r.Add(r, new(big.Int).Mul(new(big.Int).Mul(z, z), vpow2(int64(i))))
		b[i] = r.Mod(r, N)
		t.Add(t, new(big.Int).Mul(a[i], b[i]))
		pow = new(big.Int).Mod(new(big.Int).Mul(pow, y), N)
	}
	proof.Tprime = t.Mod(t, N)
	proof.Mu = new(big.Int).Mod(new(big.Int).Add(alpha, new(big.Int).Mul(rho, x)), N)
	proof.Taux = c05free("taux", g)
	proof.InnerProductProof = c05inner(p, y, a, b, proof.Tprime)
	ok, err := proof.Verify()
	rt.Assert("a product that does not fit the committed value is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// Everything fits but the inner product of the committed vectors.
func verif_C05_opening() {
	rt.Bound("P-256, n = 1: any commitments, t', taux, mu and P fit each other, final scalars are the committed ones, or any")
	p := vsetup(1, group.P256())
	g := p.GP
	N := g.N()
	v := rt.Big("v", vpow2(1), new(big.Int).Sub(N, big.NewInt(1)))
	proof, gamma := c05cheat(p, v)
	var k [8]*big.Int
	for i := range k {
		k[i] = c05free("k"+string(rune('0'+i)), g)
	}
	proof.A = g.Element().Add(g.Element().Scale(p.H, k[0]), g.Element().Add(g.Element().Scale(p.Gg[0], k[1]), g.Element().Scale(p.Hh[0], k[2])))
	proof.S = g.Element().Add(g.Element().Scale(p.H, k[3]), g.Element().Add(g.Element().Scale(p.Gg[0], k[4]), g.Element().Scale(p.Hh[0], k[5])))
	proof.T1 = g.Element().Add(g.Element().BaseScale(k[6]), g.Element().Scale(p.H, k[7]))
	proof.T2 = g.Element().Set(proof.T1)
	x, y, z := c05challenges(&proof)
	z2 := new(big.Int).Mul(z, z)
	base := new(big.Int).Add(new(big.Int).Mul(z2, v), c05delta0(1, y, z, N))
	proof.Tprime = c05polynomial(base, k[6], k[6], x, N)
	proof.Taux = c05polynomial(new(big.Int).Mul(z2, gamma), k[7], k[7], x, N)
	proof.Mu = new(big.Int).Mod(new(big.Int).Add(k[0], new(big.Int).Mul(k[3], x)), N)
	l := new(big.Int).Add(new(big.Int).Sub(k[1], z), new(big.Int).Mul(k[4], x))
	r := new(big.Int).Add(new(big.Int).Add(k[2], z), new(big.Int).Mul(k[5], x))
	r.Add(r, z2)
	a, b := []*big.Int{l.Mod(l, N)}, []*big.Int{r.Mod(r, N)}
	proof.InnerProductProof = c05inner(p, y, a, b, proof.Tprime)
	switch rt.Choice("scalars", 3) {
	case 1:
		proof.InnerProductProof.A = c05free("a", g)
		proof.InnerProductProof.B = c05free("b", g)
	case 2:
		proof.InnerProductProof.A = proof.Tprime
		proof.InnerProductProof.B = big.NewInt(1)
	}
	ok, err := proof.Verify()
	rt.Assert("vectors with another product are rejected", !ok || err != nil)
	rt.Reach("rejected")
}
