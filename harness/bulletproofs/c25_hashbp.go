package bulletproofs

import (
	"fmt"
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// The challenges that the transcript hash yields have the full length.
func verif_C25_transcript() {
	rt.Bound("every curve, transcripts of 1, 2, 3, 5 arbitrary elements: low 248 bits of both challenges reduced modulo the order")
	i := rt.Choice("curve", 4)
	g := vgroup(i)
	n := []int{1, 2, 3, 5}[rt.Choice("elements", 4)]
	hi := new(big.Int).Sub(g.N(), big.NewInt(1))
	t := c25elements(n, g, hi)
	a, b, err := HashBP(t...)
	rt.Assert("hash succeeds", err == nil)
	a, b = new(big.Int).Mod(a, g.N()), new(big.Int).Mod(b, g.N())
	rt.FullRange(fmt.Sprintf("first challenge has all its bits (%d elements, curve %d)", n, i), a, 248)
	rt.FullRange(fmt.Sprintf("second challenge has all its bits (%d elements, curve %d)", n, i), b, 248)
	rt.Reach("done")
}
