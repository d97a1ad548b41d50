package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

func c02(n int64, g group.Group) {
	p := vsetup(n, g)
	secret := rt.Big("secret", big.NewInt(0), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	proof, gamma, err := Prove(secret, p)
	rt.Assert("prover succeeds", err == nil)
	want := g.Element().Add(g.Element().BaseScale(secret), g.Element().Scale(p.H, gamma))
	rt.Assert("commitment opens to the secret with the returned blinding", proof.V.IsEqual(want))
	ok, err := proof.Verify()
	rt.Assert("proof of an in-range value is accepted", ok && err == nil)
	rt.Reach("accepted")
}

func verif_C02_curves() {
	rt.Bound("every curve at n = 1, 2, 4")
	n := []int64{1, 2, 4}[rt.Choice("n", 3)]
	c02(n, vgroup(rt.Choice("curve", 4)))
}

func verif_C02_n8() {
	rt.Bound("P-256 at n = 8")
	c02(8, group.P256())
}

func verif_C02_n16() {
	rt.Bound("P-256 at n = 16")
	c02(16, group.P256())
}

func verif_C02_n32() {
	rt.Bound("P-256 at n = 32")
	c02(32, group.P256())
}

func verif_C02_large() {
	rt.Bound("P-384 and ristretto255 at n = 8, 16, 32")
	n := []int64{8, 16, 32}[rt.Choice("n", 3)]
	c02(n, vgroup(1+2*rt.Choice("curve", 2)))
}
