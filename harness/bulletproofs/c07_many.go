package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Two of eight values are off, one above and one below their range.
func verif_C07_many() {
	rt.Bound("P-256, (n, m) = (8, 8): each pair of values replaced by one above and one below the range, anywhere in (2^bits - N, N)")
	g := group.P256()
	p := vsetup(8, g)
	i, j := rt.Choice("i", 8), rt.Choice("j", 8)
	if i == j {
		return
	}
	s := make([]*big.Int, 8)
	for k := range s {
		s[k] = big.NewInt(int64(k & 1))
	}
	s[i] = rt.Big("above", vpow2(1), new(big.Int).Sub(g.N(), big.NewInt(1)))
	s[j] = rt.Big("below", new(big.Int).Sub(vpow2(1), g.N()), big.NewInt(-1))
	proof, _, err := MultiProve(s, p)
	if err != nil {
		rt.Reach("refused")
		return
	}
	ok, err := proof.Verify()
	rt.Assert("aggregated proof with an out-of-range value is rejected", !ok || err != nil)
	rt.Reach("rejected")
}
