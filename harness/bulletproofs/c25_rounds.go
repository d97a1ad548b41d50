package bulletproofs

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

func c25elements(n int, g group.Group, hi *big.Int) []group.Element {
	t := make([]group.Element, n)
	for j := range t {
		t[j] = g.Element().BaseScale(rt.Big(fmt.Sprintf("e%d", j), big.NewInt(2), hi))
	}
	return t
}

// The folded vector shows the challenges of the rounds.
func verif_C25_rounds() {
	rt.Bound("P-256, ristretto255, vector lengths 2 and 4: low 248 bits of the last folding challenge")
	i := []int{0, 3}[rt.Choice("curve", 2)]
	g := vgroup(i)
	n := []int{2, 4}[rt.Choice("n", 2)]
	hi := new(big.Int).Sub(g.N(), big.NewInt(1))
	a, b := make([]*big.Int, n), make([]*big.Int, n)
	ip := new(big.Int)
	for j := range a {
		a[j] = new(big.Int)
		b[j] = rt.Big(fmt.Sprintf("b%d", j), new(big.Int), hi)
	}
	a[0] = big.NewInt(1)
	ip.Set(b[0])
	params, err := setupInnerProduct(nil, nil, int64(n), g)
	rt.Assert("set-up succeeds", err == nil)
	P := commitInnerProduct(params.Gg, params.Hh, a, b, g)
	pr, err := proveInnerProduct(a, b, P, ip, params)
	rt.Assert("prover succeeds", err == nil)
	ok, err := pr.Verify()
	rt.Assert("proof is accepted", ok && err == nil)
	// with a = (1, 0, ...) the final scalar is the product of the challenges or of their inverses
	rt.FullRange(fmt.Sprintf("the folding challenges have all their bits (n = %d, curve %d)", n, i), pr.A, 248)
	rt.Reach("done")
}
