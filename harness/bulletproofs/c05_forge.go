package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c05base is a proof over P-256 the prover made for a value that may be out of
// range, with its value.
func c05base(n int64) (BulletProof, BulletProofSetupParams, *big.Int) {
	p := vsetup(n, group.P256())
	secret := rt.Big("secret", vpow2(n), vpow2(n+20))
	proof, _, err := Prove(secret, p)
	rt.Assert("prover runs", err == nil)
	return proof, p, secret
}

// Inner-product parts over generators the prover chose after the fact: P is
// exactly what the other equations need, and any claimed product is provable.
func verif_C05_generators() {
	rt.Bound("P-256, n = 1, 2, 4, 8, 32: inner-product part proved over prover-chosen generators, in as many rounds as n needs or none")
	n := []int64{1, 2, 4, 8, 32}[rt.Choice("n", 5)]
	p := vsetup(n, group.P256())
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, _, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	g := p.GP
	ip := proof.InnerProductProof
	k := n
	if rt.Choice("rounds", 2) == 1 {
		k = 1
	}
	// P = 1*g0 + c*h0 over the chosen g0, h0
	gg, hh := make([]group.Element, k), make([]group.Element, k)
	a, b := make([]*big.Int, k), make([]*big.Int, k)
	h0 := g.Element().BaseScale(rt.Big("h0", big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1))))
	for i := range gg {
		gg[i], hh[i] = g.Generator(), g.Generator()
		a[i], b[i] = new(big.Int), new(big.Int)
	}
	hh[0] = h0
	gg[0] = g.Element().Subtract(ip.P, g.Element().Scale(h0, ip.Cc))
	a[0], b[0] = big.NewInt(1), ip.Cc
	params, err := setupInnerProduct(gg, hh, k, g)
	rt.Assert("inner-product set-up succeeds", err == nil)
	forged, err := proveInnerProduct(a, b, ip.P, ip.Cc, params)
	rt.Assert("inner-product prover succeeds", err == nil)
	proof.InnerProductProof = forged
	ok, err := proof.Verify()
	rt.Assert("inner-product part over other generators is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// With the prover's own base for the claimed product, the product is not bound.
func verif_C05_base() {
	rt.Bound("P-256, n = 1, 2: inner-product part over a prover-chosen base for the product")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	p := vsetup(n, group.P256())
	g := p.GP
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, _, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	d := c05delta(g)
	ip := proof.InnerProductProof
	ip.Params.Uu = g.Identity()
	proof.InnerProductProof = ip
	// a wrong t', compensated in V
	proof.Tprime = new(big.Int).Add(proof.Tprime, d)
	proof.InnerProductProof.Cc = proof.Tprime
	ok, err := proof.Verify()
	rt.Assert("product over another base is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

func c05delta(g group.Group) *big.Int {
	return rt.Big("d", big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1)))
}

// The parameters embedded in the inner-product part have no influence.
func verif_C05_embedded() {
	rt.Bound("P-256, n = 1, 2, 4, 8, 32: one of the inner-product parameters in the proof replaced")
	n := []int64{1, 2, 4, 8, 32}[rt.Choice("n", 5)]
	p := vsetup(n, group.P256())
	g := p.GP
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, _, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	ip := &proof.InnerProductProof
	d := c05delta(g)
	other := g.Element().BaseScale(d)
	switch rt.Choice("what", 6) {
	case 0:
		ip.Params.Uu = other
	case 1:
		ip.Params.Gg = append([]group.Element{other}, ip.Params.Gg[1:]...)
	case 2:
		ip.Params.Hh = append([]group.Element{other}, ip.Params.Hh[1:]...)
	case 3:
		ip.Params.Gg = nil
		ip.Params.Hh = nil
	case 4:
		ip.Params.GP = group.P384()
	case 5:
		ip.Params = InnerProductParams{}
	}
	ok := false
	var verr error
	rt.Assert("verification does not panic", !rt.Panics(func() { ok, verr = proof.Verify() }))
	// the proof itself is honest: the verifier's own parameters accept it
	rt.Assert("embedded parameters do not matter", ok && verr == nil)
	rt.Reach("accepted")
}

// A wrong number of folding rounds.
func verif_C05_rounds() {
	rt.Bound("P-256, n = 1, 2, 4, 8, 32: rounds dropped or added")
	n := []int64{1, 2, 4, 8, 32}[rt.Choice("n", 5)]
	p := vsetup(n, group.P256())
	g := p.GP
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, _, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	ip := &proof.InnerProductProof
	k := len(ip.L)
	switch rt.Choice("what", 5) {
	case 0:
		ip.L, ip.R = append(ip.L[:k:k], g.Identity()), append(ip.R[:k:k], g.Identity())
	case 1:
		rt.Assume(k > 0)
		ip.L, ip.R = ip.L[:k-1], ip.R[:k-1]
	case 2:
		ip.L, ip.R = nil, nil
		rt.Assume(k > 0)
	case 3:
		ip.L = append(ip.L[:k:k], g.Identity())
	case 4:
		ip.R = append(ip.R[:k:k], g.Identity())
	}
	ok := true
	var verr error
	rt.Assert("verification does not panic", !rt.Panics(func() { ok, verr = proof.Verify() }))
	rt.Assert("wrong number of rounds is rejected", !ok || verr != nil)
	rt.Reach("rejected")
}

// A proof made for another group, bit length or generator set than the verifier's.
func verif_C05_params() {
	rt.Bound("P-256, verifier n = 2: proof made with one parameter different, then verified with the verifier's parameters")
	p := vsetup(2, group.P256())
	g := p.GP
	q := p
	d := c05delta(g)
	what := rt.Choice("what", 5)
	n := int64(2)
	switch what {
	case 0:
		q.H = g.Element().BaseScale(d)
	case 1:
		q.Gg = []group.Element{g.Element().BaseScale(d), p.Gg[1]}
	case 2:
		q.Hh = []group.Element{p.Hh[0], g.Element().BaseScale(d)}
	case 3:
		n = 4
		q = vsetup(n, group.P256())
	case 4:
		n = 1
		q = vsetup(n, group.P256())
	}
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, _, err := Prove(secret, q)
	rt.Assert("prover succeeds", err == nil)
	proof.Params = p
	ok := true
	var verr error
	rt.Assert("verification does not panic", !rt.Panics(func() { ok, verr = proof.Verify() }))
	rt.Assert("proof for other parameters is rejected", !ok || verr != nil)
	rt.Reach("rejected")
}
