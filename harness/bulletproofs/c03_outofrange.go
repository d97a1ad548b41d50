package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c03 runs the prover on any value that is not congruent to one in range.
func c03(n int64, g group.Group) {
	p := vsetup(n, g)
	one := big.NewInt(1)
	var secret *big.Int
	switch rt.Choice("side", 2) {
	case 0:
		secret = rt.Big("secret", vpow2(n), new(big.Int).Sub(g.N(), one))
	case 1:
		secret = rt.Big("secret", new(big.Int).Sub(vpow2(n), g.N()), big.NewInt(-1))
	}
	proof, _, err := Prove(secret, p)
	if err != nil {
		rt.Reach("refused")
		return
	}
	ok, err := proof.Verify()
	rt.Assert("proof of an out-of-range value is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

func verif_C03_curves() {
	rt.Bound("every curve at n = 1, 2, secrets in [2^n, N) and (2^n-N, 0)")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	c03(n, vgroup(rt.Choice("curve", 4)))
}

func verif_C03_n4() {
	rt.Bound("P-256 at n = 4, 8")
	n := []int64{4, 8}[rt.Choice("n", 2)]
	c03(n, group.P256())
}

func verif_C03_n16() {
	rt.Bound("P-256 at n = 16, 32; secrets just outside the range, up to 2^(n+4) above or below")
	n := []int64{16, 32}[rt.Choice("n", 2)]
	g := group.P256()
	p := vsetup(n, g)
	var secret *big.Int
	switch rt.Choice("side", 2) {
	case 0:
		secret = rt.Big("secret", vpow2(n), vpow2(n+4))
	case 1:
		secret = rt.Big("secret", new(big.Int).Neg(vpow2(n+4)), big.NewInt(-1))
	}
	proof, _, err := Prove(secret, p)
	if err != nil {
		rt.Reach("refused")
		return
	}
	ok, err := proof.Verify()
	rt.Assert("proof of an out-of-range value is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

func verif_C03_large() {
	rt.Bound("P-384 and ristretto255 at n = 4, 8, 16, 32; secrets just outside the range, up to 2^(n+4) above or below")
	n := []int64{4, 8, 16, 32}[rt.Choice("n", 4)]
	g := vgroup(1 + 2*rt.Choice("curve", 2))
	p := vsetup(n, g)
	var secret *big.Int
	switch rt.Choice("side", 2) {
	case 0:
		secret = rt.Big("secret", vpow2(n), vpow2(n+4))
	case 1:
		secret = rt.Big("secret", new(big.Int).Neg(vpow2(n+4)), big.NewInt(-1))
	}
	proof, _, err := Prove(secret, p)
	if err != nil {
		rt.Reach("refused")
		return
	}
	ok, err := proof.Verify()
	rt.Assert("proof of an out-of-range value is rejected", !ok || err != nil)
	rt.Reach("rejected")
}
