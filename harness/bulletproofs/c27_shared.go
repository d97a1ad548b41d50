package bulletproofs

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// Proofs made and verified at the same time with the same parameters.
func verif_C27_range() {
	rt.Bound("every curve, n = 2: proving and verifying one value with shared parameters, value and proof")
	g := vcurve()
	p := vsetup(2, g)
	secret := rt.Big("secret", big.NewInt(0), big.NewInt(3))
	proof, gamma, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	if rt.Choice("what", 2) == 0 {
		rt.Shared("concurrent range proofs share no state", func() {
			_, _, _ = Prove(secret, p)
		}, &p, secret, &proof, gamma, g)
	} else {
		rt.Shared("concurrent range verifications share no state", func() {
			_, _ = proof.Verify()
		}, &p, secret, &proof, gamma, g)
	}
	rt.Reach("done")
}

func verif_C27_multi() {
	rt.Bound("every curve, (n, m) = (4, 2): proving and verifying two values with shared parameters, values and proof")
	g := vcurve()
	p := vsetup(4, g)
	s := []*big.Int{rt.Big("s0", big.NewInt(0), big.NewInt(3)), rt.Big("s1", big.NewInt(0), big.NewInt(3))}
	proof, gammas, err := MultiProve(s, p)
	rt.Assert("prover succeeds", err == nil)
	if rt.Choice("what", 2) == 0 {
		rt.Shared("concurrent aggregated proofs share no state", func() {
			_, _, _ = MultiProve(s, p)
		}, &p, s, &proof, gammas, g)
	} else {
		rt.Shared("concurrent aggregated verifications share no state", func() {
			_, _ = proof.Verify()
		}, &p, s, &proof, gammas, g)
	}
	rt.Reach("done")
}
