package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// The two challenges derived together differ, and change with every input.
func verif_C20_pair() {
	rt.Bound("every curve: three arbitrary elements")
	g := vgroup(rt.Choice("curve", 4))
	el := func(name string) group.Element {
		return g.Element().BaseScale(rt.Big(name, big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1))))
	}
	a, b, c := el("a"), el("b"), el("c")
	rt.RecordHashes()
	y, z, err := HashBP(a, b, c)
	hashes := rt.Hashes()
	rt.Assert("hashing succeeds", err == nil)
	// Where the first challenge is a plain hash output, the second is one of its own.
	first, second := c20among(y, hashes, g.N()), c20among(z, hashes, g.N())
	rt.Assert("the second challenge is a hash like the first", first < 0 || second >= 0 && second != first)
	rt.Assert("the two challenges are different", y.Cmp(z) != 0)
	w := el("w")
	var y2, z2 *big.Int
	switch rt.Choice("what", 3) {
	case 0:
		rt.Assume(!w.IsEqual(a))
		y2, z2, err = HashBP(w, b, c)
	case 1:
		rt.Assume(!w.IsEqual(b))
		y2, z2, err = HashBP(a, w, c)
	case 2:
		rt.Assume(!w.IsEqual(c))
		y2, z2, err = HashBP(a, b, w)
	}
	rt.Assert("hashing succeeds", err == nil)
	rt.Assert("both challenges change with every element", y.Cmp(y2) != 0 && z.Cmp(z2) != 0)
	rt.Assert("challenges of different transcripts are unrelated", y.Cmp(z2) != 0 && z.Cmp(y2) != 0)
	rt.Reach("compared")
}

// c20among finds the hash output that equals v modulo the order, if any.
func c20among(v *big.Int, hashes []*big.Int, n *big.Int) int {
	for i, h := range hashes {
		if new(big.Int).Mod(new(big.Int).Sub(v, h), n).Sign() == 0 {
			return i
		}
	}
	return -1
}
