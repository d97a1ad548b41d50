package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// A claimed t' that satisfies the polynomial equation, with an honest
// inner-product part for a different value.
func verif_C05_product() {
	rt.Bound("P-256, n = 1, 2: out-of-range value, t' adapted to the challenges, honest inner-product part")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	proof, p, secret := c05base(n)
	_, z, _ := HashBP(proof.V, proof.A, proof.S)
	low := new(big.Int).Mod(secret, vpow2(n))
	d := new(big.Int).Sub(secret, low)
	d.Mul(d, z).Mul(d, z)
	proof.Tprime = new(big.Int).Mod(new(big.Int).Add(proof.Tprime, d), p.GP.N())
	ok, err := proof.Verify()
	rt.Assert("inner product different from t' is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// t' and the claimed product differ as numbers.
func verif_C05_pairs() {
	rt.Bound("P-256, n = 1, 2: t' replaced by any other number between -2N and 2N, the rest honest")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	p := vsetup(n, group.P256())
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, _, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	N := p.GP.N()
	t := new(big.Int)
	switch rt.Choice("what", 2) {
	case 0:
		t = rt.Big("t", new(big.Int).Lsh(new(big.Int).Neg(N), 1), new(big.Int).Lsh(N, 1))
	case 1:
		t.Neg(proof.InnerProductProof.Cc)
	}
	m := new(big.Int).Sub(t, proof.Tprime)
	rt.Assume(m.Mod(m, N).Sign() != 0)
	proof.Tprime = t
	ok, err := proof.Verify()
	rt.Assert("another t' is rejected", !ok || err != nil)
	rt.Reach("rejected")
}
