package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c04tag tells the alterations of one proof apart.
var c04tag string

func c04delta(g group.Group) *big.Int {
	return rt.Big("d"+c04tag, big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1)))
}

// c04shift is e changed by a nonzero multiple of one of the generators.
func c04shift(e group.Element, p BulletProofSetupParams) group.Element {
	g := p.GP
	d := c04delta(g)
	var base group.Element
	switch rt.Choice("direction"+c04tag, 4) {
	case 0:
		base = g.Generator()
	case 1:
		base = p.H
	case 2:
		base = p.Gg[0]
	case 3:
		base = p.Hh[0]
	}
	return g.Element().Add(e, g.Element().Scale(base, d))
}

func c04num(v *big.Int, g group.Group) *big.Int { return new(big.Int).Add(v, c04delta(g)) }

const c04parts = 12

// c04alter changes one component of the proof; parts 12.. are the L and R entries.
func c04alter(proof *BulletProof, part int) {
	p := proof.Params
	g := p.GP
	ip := &proof.InnerProductProof
	switch part {
	case 0:
		proof.V = c04shift(proof.V, p)
	case 1:
		proof.A = c04shift(proof.A, p)
	case 2:
		proof.S = c04shift(proof.S, p)
	case 3:
		proof.T1 = c04shift(proof.T1, p)
	case 4:
		proof.T2 = c04shift(proof.T2, p)
	case 5:
		proof.Taux = c04num(proof.Taux, g)
	case 6:
		proof.Mu = c04num(proof.Mu, g)
	case 7:
		proof.Tprime = c04num(proof.Tprime, g)
	case 8:
		ip.P = c04shift(ip.P, p)
	case 9:
		ip.Cc = c04num(ip.Cc, g)
	case 10:
		ip.A = c04num(ip.A, g)
	case 11:
		ip.B = c04num(ip.B, g)
	default:
		i := (part - c04parts) / 2
		if part%2 == 0 {
			ip.L = append([]group.Element(nil), ip.L...)
			ip.L[i] = c04shift(ip.L[i], p)
		} else {
			ip.R = append([]group.Element(nil), ip.R...)
			ip.R[i] = c04shift(ip.R[i], p)
		}
	}
}

func c04log(n int64) (k int) {
	for ; n > 1; n /= 2 {
		k++
	}
	return
}

func c04(n int64, g group.Group) {
	p := vsetup(n, g)
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, _, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	c04alter(&proof, rt.Choice("part", c04parts+2*c04log(n)))
	ok, err := proof.Verify()
	rt.Assert("altered proof is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

func verif_C04_n1() {
	rt.Bound("P-256, n = 1: each component altered, elements by any nonzero multiple of G, H, Gg[0] or Hh[0]")
	c04(1, group.P256())
}

func verif_C04_n2() {
	rt.Bound("P-256, n = 2: each component altered, the L and R entries included")
	c04(2, group.P256())
}

func verif_C04_n4() {
	rt.Bound("P-256, n = 4: each component altered")
	c04(4, group.P256())
}

func verif_C04_curves() {
	rt.Bound("the other curves, n = 1: each component altered")
	c04(1, vgroup(1+rt.Choice("curve", 3)))
}

func verif_C04_large() {
	rt.Bound("P-256, n = 8, 32: each component altered")
	c04([]int64{8, 32}[rt.Choice("n", 2)], group.P256())
}

func verif_C04_curves2() {
	rt.Bound("P-384 and ristretto255, n = 2, 8: each component altered")
	c04([]int64{2, 8}[rt.Choice("n", 2)], vgroup(1+2*rt.Choice("curve", 2)))
}

func c04pairs(n int64, g group.Group) {
	p := vsetup(n, g)
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, _, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	parts := c04parts + 2*c04log(n)
	i := rt.Choice("part", parts)
	j := i + 1 + rt.Choice("part2", parts-1)
	if j >= parts {
		return
	}
	c04tag = ""
	c04alter(&proof, i)
	c04tag = "2"
	c04alter(&proof, j)
	c04tag = ""
	ok, err := proof.Verify()
	rt.Assert("a proof altered in two places is rejected, even if the deviations cancel", !ok || err != nil)
	rt.Reach("rejected")
}

func verif_C04_pairs() {
	rt.Bound("P-256, n = 2: each pair of components altered, by any nonzero amounts")
	c04pairs(2, group.P256())
}

// Components of two honest proofs.
func verif_C04_mixed() {
	rt.Bound("P-256, n = 1, 2, 4: each single component, and each initial segment of the components, taken from another honest proof, for any two values")
	n := int64(1) << uint(rt.Choice("n", 3))
	p := vsetup(n, group.P256())
	top := new(big.Int).Sub(vpow2(n), big.NewInt(1))
	a, _, e1 := Prove(rt.Big("s1", new(big.Int), top), p)
	b, _, e2 := Prove(rt.Big("s2", new(big.Int), top), p)
	rt.Assert("prover succeeds", e1 == nil && e2 == nil)
	k := rt.Choice("part", 9)
	lo := k
	if rt.Choice("segment", 2) == 1 {
		lo = 0
		if k == 8 {
			return
		}
	}
	for i := lo; i <= k; i++ {
		switch i {
		case 0:
			a.V = b.V
		case 1:
			a.A = b.A
		case 2:
			a.S = b.S
		case 3:
			a.T1 = b.T1
		case 4:
			a.T2 = b.T2
		case 5:
			a.Taux = b.Taux
		case 6:
			a.Mu = b.Mu
		case 7:
			a.Tprime = b.Tprime
		case 8:
			a.InnerProductProof = b.InnerProductProof
		}
	}
	ok, err := a.Verify()
	rt.Assert("components of two proofs do not combine", !ok || err != nil)
	rt.Reach("rejected")
}
