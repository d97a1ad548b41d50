package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c20verify runs f and returns the hash values it computed.
func c20hashes(f func()) []*big.Int {
	rt.RecordHashes()
	f()
	return rt.Hashes()
}

// c20changed counts the hash values that differ.
func c20changed(a, b []*big.Int) int {
	k := 0
	for i := range a {
		if i < len(b) && a[i].Cmp(b[i]) != 0 {
			k++
		}
	}
	return k
}

func c20delta(g group.Group) *big.Int {
	return rt.Big("d", big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1)))
}

func c20proof(n int64, g group.Group) (BulletProof, BulletProofSetupParams) {
	p := vsetup(n, g)
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, _, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	return proof, p
}

func c20bp(n int64, g group.Group) {
	proof, _ := c20proof(n, g)
	before := c20hashes(func() { proof.Verify() })
	// the inner-product part has its own statement
	inner := c20hashes(func() { proof.InnerProductProof.Verify() })
	d := c20delta(g)
	shift := func(e group.Element) group.Element {
		return g.Element().Add(e, g.Element().BaseScale(d))
	}
	what := rt.Choice("what", 8)
	switch what {
	case 0:
		proof.V = shift(proof.V)
	case 1:
		proof.A = shift(proof.A)
	case 2:
		proof.S = shift(proof.S)
	case 3:
		proof.V, proof.A = proof.A, proof.V
	case 4:
		proof.A, proof.S = proof.S, proof.A
	case 5:
		proof.T1 = shift(proof.T1)
	case 6:
		proof.T2 = shift(proof.T2)
	case 7:
		proof.T1, proof.T2 = proof.T2, proof.T1
	}
	after := c20hashes(func() { proof.Verify() })
	if len(before) == 0 || len(after) != len(before) {
		return
	}
	if what <= 4 {
		rt.Assert("all challenges change with V, A and S and their order", c20changed(before, after) >= len(before)-len(inner))
	} else {
		rt.Assert("a challenge changes with T1 and T2 and their order", c20changed(before, after) > 0)
	}
	rt.Reach("compared")
}

func verif_C20_messages() {
	rt.Bound("P-256, n = 1, 2, 8: V, A, S, T1 or T2 changed by any nonzero multiple of the generator, or two of them swapped")
	n := []int64{1, 2, 8}[rt.Choice("n", 3)]
	c20bp(n, group.P256())
}

func verif_C20_messages_curves() {
	rt.Bound("the other curves, n = 1")
	c20bp(1, vgroup(1+rt.Choice("curve", 3)))
}

// The x of an accepted proof is one of the hashes verification computes. A prover
// that knows it before fixing a message could compensate a change of the message.
func verif_C20_adaptive() {
	rt.Bound("P-256, n = 1, 2: V, A, S, T1 or T2 changed and the responses adapted to any of the hash values")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	g := group.P256()
	proof, p := c20proof(n, g)
	hs := c20hashes(func() { proof.Verify() })
	d := c20delta(g)
	shift := func(e group.Element) group.Element {
		return g.Element().Add(e, g.Element().Scale(p.H, d))
	}
	rt.Assume(len(hs) > 0)
	x := hs[rt.Choice("hash", len(hs))]
	xd := new(big.Int).Mul(x, d)
	xxd := new(big.Int).Mul(x, xd)
	switch rt.Choice("what", 5) {
	case 0:
		proof.V = shift(proof.V)
		proof.Taux = new(big.Int).Add(proof.Taux, xxd)
	case 1:
		proof.A = shift(proof.A)
		proof.Mu = new(big.Int).Add(proof.Mu, d)
	case 2:
		proof.S = shift(proof.S)
		proof.Mu = new(big.Int).Add(proof.Mu, xd)
	case 3:
		proof.T1 = shift(proof.T1)
		proof.Taux = new(big.Int).Add(proof.Taux, xd)
	case 4:
		proof.T2 = shift(proof.T2)
		proof.Taux = new(big.Int).Add(proof.Taux, xxd)
	}
	ok, err := proof.Verify()
	rt.Assert("message changed after the challenge is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// T1 and T2 changed together so that their combination stays.
func verif_C20_adaptive_pair() {
	rt.Bound("P-256, n = 1: T1 and T2 (A and S, V and T1) changed so that the combination under any of the hash values stays")
	g := group.P256()
	proof, p := c20proof(1, g)
	hs := c20hashes(func() { proof.Verify() })
	rt.Assume(len(hs) > 0)
	x := hs[rt.Choice("hash", len(hs))]
	d := c20delta(g)
	base := []group.Element{g.Generator(), p.H, p.Gg[0]}[rt.Choice("direction", 3)]
	D := g.Element().Scale(base, d)
	Dx := g.Element().Scale(D, x)
	switch rt.Choice("what", 2) {
	case 0:
		proof.T1 = g.Element().Subtract(proof.T1, Dx)
		proof.T2 = g.Element().Add(proof.T2, D)
	case 1:
		proof.A = g.Element().Subtract(proof.A, Dx)
		proof.S = g.Element().Add(proof.S, D)
	}
	ok, err := proof.Verify()
	rt.Assert("messages changed after the challenge are rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// Prover and verifier of aggregated proofs.
func verif_C20_multi() {
	rt.Bound("P-256, (n, m) in {(1,1),(2,2)}: one message changed or two swapped")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	g := group.P256()
	p := vsetup(n, g)
	s := []*big.Int{rt.Big("secret", big.NewInt(0), big.NewInt(1))}
	if n == 2 {
		s = append(s, rt.Big("secret1", big.NewInt(0), big.NewInt(1)))
	}
	proof, _, err := MultiProve(s, p)
	rt.Assert("prover succeeds", err == nil)
	before := c20hashes(func() { proof.Verify() })
	inner := c20hashes(func() { proof.InnerProductProof.Verify() })
	d := c20delta(g)
	shift := func(e group.Element) group.Element {
		return g.Element().Add(e, g.Element().BaseScale(d))
	}
	what := rt.Choice("what", 9)
	vs := append([]group.Element(nil), proof.Vs...)
	switch what {
	case 0:
		vs[0] = shift(vs[0])
	case 1:
		vs[len(vs)-1] = shift(vs[len(vs)-1])
	case 2:
		proof.A = shift(proof.A)
	case 3:
		proof.S = shift(proof.S)
	case 4:
		proof.A, proof.S = proof.S, proof.A
	case 5:
		vs[0], proof.A = proof.A, vs[0]
	case 6:
		proof.T1 = shift(proof.T1)
	case 7:
		proof.T2 = shift(proof.T2)
	case 8:
		proof.T1, proof.T2 = proof.T2, proof.T1
	}
	proof.Vs = vs
	after := c20hashes(func() { proof.Verify() })
	if len(before) == 0 || len(after) != len(before) {
		return
	}
	if what <= 5 {
		rt.Assert("all challenges change with the commitments, A and S and their order", c20changed(before, after) >= len(before)-len(inner))
	} else {
		rt.Assert("a challenge changes with T1 and T2 and their order", c20changed(before, after) > 0)
	}
	rt.Reach("compared")
}

func verif_C20_multi_adaptive() {
	rt.Bound("P-256, (n, m) = (1,1), (2,2): a message changed and the responses adapted to any of the hash values")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	g := group.P256()
	p := vsetup(n, g)
	s := []*big.Int{rt.Big("secret", big.NewInt(0), big.NewInt(1))}
	if n == 2 {
		s = append(s, rt.Big("secret1", big.NewInt(0), big.NewInt(1)))
	}
	proof, _, err := MultiProve(s, p)
	rt.Assert("prover succeeds", err == nil)
	hs := c20hashes(func() { proof.Verify() })
	d := c20delta(g)
	shift := func(e group.Element) group.Element {
		return g.Element().Add(e, g.Element().Scale(p.H, d))
	}
	rt.Assume(len(hs) > 0)
	x := hs[rt.Choice("hash", len(hs))]
	xd := new(big.Int).Mul(x, d)
	xxd := new(big.Int).Mul(x, xd)
	vs := append([]group.Element(nil), proof.Vs...)
	switch rt.Choice("what", 6) {
	case 0:
		vs[0] = shift(vs[0])
		proof.Taux = new(big.Int).Add(proof.Taux, xxd)
	case 1:
		vs[n-1] = shift(vs[n-1])
		if n == 2 {
			xxd.Mul(xxd, x)
		}
		proof.Taux = new(big.Int).Add(proof.Taux, xxd)
	case 2:
		proof.A = shift(proof.A)
		proof.Mu = new(big.Int).Add(proof.Mu, d)
	case 3:
		proof.S = shift(proof.S)
		proof.Mu = new(big.Int).Add(proof.Mu, xd)
	case 4:
		proof.T1 = shift(proof.T1)
		proof.Taux = new(big.Int).Add(proof.Taux, xd)
	case 5:
		proof.T2 = shift(proof.T2)
		proof.Taux = new(big.Int).Add(proof.Taux, xxd)
	}
	proof.Vs = vs
	ok, err := proof.Verify()
	rt.Assert("message changed after the challenge is rejected", !ok || err != nil)
	rt.Reach("rejected")
}
