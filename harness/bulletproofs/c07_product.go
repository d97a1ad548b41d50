package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// A claimed t' that satisfies the polynomial equation for out-of-range values,
// with an honest inner-product part for a different product.
func verif_C07_product() {
	rt.Bound("P-256, (n, m) in {(1,1),(2,2)}: out-of-range first value, t' adapted to the challenges, honest inner-product part")
	m := 1 + rt.Choice("m", 2)
	g := group.P256()
	p := vsetup(int64(m), g)
	s := c07values(m, 1)
	s[0] = rt.Big("out", big.NewInt(2), vpow2(20))
	proof, _, err := MultiProve(s, p)
	rt.Assert("prover runs", err == nil)
	_, z, _ := HashBP(append(append([]group.Element{}, proof.Vs...), proof.A, proof.S)...)
	d := new(big.Int).Sub(s[0], new(big.Int).Mod(s[0], big.NewInt(2)))
	d.Mul(d, z).Mul(d, z)
	proof.Tprime = new(big.Int).Mod(new(big.Int).Add(proof.Tprime, d), g.N())
	ok, err := proof.Verify()
	rt.Assert("inner product different from t' is rejected", !ok || err != nil)
	rt.Reach("rejected")
}
