package bulletproofs

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c20ipp is an inner-product proof for small fixed vectors over generators
// that include symbolic ones.
func c20ipp(n int, g group.Group) (InnerProductProof, []*big.Int, []*big.Int) {
	a, b := make([]*big.Int, n), make([]*big.Int, n)
	ip := new(big.Int)
	for i := range a {
		a[i], b[i] = big.NewInt(int64(2+3*i)), big.NewInt(int64(7+2*i))
		ip.Add(ip, new(big.Int).Mul(a[i], b[i]))
	}
	a[0] = rt.Big("a0", big.NewInt(1), vpow2(64))
	ip.Add(ip, new(big.Int).Mul(b[0], new(big.Int).Sub(a[0], big.NewInt(2))))
	params, err := setupInnerProduct(nil, nil, int64(n), g)
	rt.Assert("set-up succeeds", err == nil)
	pr, err := proveInnerProduct(a, b, commitInnerProduct(params.Gg, params.Hh, a, b, g), ip, params)
	rt.Assert("prover succeeds", err == nil)
	return pr, a, b
}

func verif_C20_inner() {
	rt.Bound("P-256, vector lengths 1, 2, 4, 8: statement or round message changed by any nonzero amount, or two swapped")
	n := []int{1, 2, 4, 8}[rt.Choice("n", 4)]
	g := group.P256()
	pr, _, _ := c20ipp(n, g)
	before := c20hashes(func() { pr.Verify() })
	k := len(pr.L)
	d := c20delta(g)
	shift := func(e group.Element) group.Element {
		return g.Element().Add(e, g.Element().BaseScale(d))
	}
	gg, hh := append([]group.Element(nil), pr.Params.Gg...), append([]group.Element(nil), pr.Params.Hh...)
	least := len(before)
	what := rt.Choice("what", 6+3*k)
	switch what {
	case 0:
		pr.P = shift(pr.P)
	case 1:
		pr.Cc = new(big.Int).Add(pr.Cc, d)
	case 2:
		gg[0] = shift(gg[0])
	case 3:
		hh[0] = shift(hh[0])
	case 4:
		gg[n-1], hh[n-1] = hh[n-1], gg[n-1]
	case 5:
		rt.Assume(n > 1)
		gg[0], gg[n-1] = gg[n-1], gg[0]
	default:
		i := (what - 6) / 3
		L, R := append([]group.Element(nil), pr.L...), append([]group.Element(nil), pr.R...)
		switch (what - 6) % 3 {
		case 0:
			L[i] = shift(L[i])
		case 1:
			R[i] = shift(R[i])
		case 2:
			L[i], R[i] = R[i], L[i]
		}
		pr.L, pr.R = L, R
		least = k - i
	}
	pr.Params.Gg, pr.Params.Hh = gg, hh
	after := c20hashes(func() { pr.Verify() })
	if len(before) == 0 || len(after) != len(before) {
		return
	}
	rt.Assert("the challenge and those of all later rounds change", c20changed(before, after) >= least)
	rt.Reach("compared")
}

// Swapping the messages of two rounds changes the challenges of both.
func verif_C20_rounds() {
	rt.Bound("P-256, vector length 4: the two rounds' messages swapped")
	g := group.P256()
	pr, _, _ := c20ipp(4, g)
	before := c20hashes(func() { pr.Verify() })
	pr.L = []group.Element{pr.L[1], pr.L[0]}
	pr.R = []group.Element{pr.R[1], pr.R[0]}
	after := c20hashes(func() { pr.Verify() })
	if len(before) == 0 || len(after) != len(before) {
		return
	}
	rt.Assert("swapped rounds have other challenges", c20changed(before, after) >= 2)
	for i := range before {
		for j := range after {
			if i != j && c20changed(before, after) >= 2 && i > 0 && j > 0 {
				rt.Assert("a round's challenge depends on the earlier rounds", before[i].Cmp(after[j]) != 0)
			}
		}
	}
}

// The claimed product adapted to the first challenge.
func verif_C20_inner_product() {
	rt.Bound("P-256, vector lengths 1, 2: commitment shifted along the product's base, claimed product adapted to any of the hash values")
	n := []int{1, 2}[rt.Choice("n", 2)]
	g := group.P256()
	a, b := make([]*big.Int, n), make([]*big.Int, n)
	ip := new(big.Int)
	for i := range a {
		a[i] = rt.Big(fmt.Sprintf("a%d", i), big.NewInt(1), vpow2(64))
		b[i] = big.NewInt(int64(3 + i))
		ip.Add(ip, new(big.Int).Mul(a[i], b[i]))
	}
	params, err := setupInnerProduct(nil, nil, int64(n), g)
	rt.Assert("set-up succeeds", err == nil)
	d := c20delta(g)
	P := commitInnerProduct(params.Gg, params.Hh, a, b, g)
	P = g.Element().Add(P, g.Element().Scale(params.Uu, d))
	pr, err := proveInnerProduct(a, b, P, ip, params)
	if err != nil {
		return
	}
	hs := c20hashes(func() { pr.Verify() })
	rt.Assume(len(hs) > 0)
	x := hs[rt.Choice("hash", len(hs))]
	inv := new(big.Int).ModInverse(x, g.N())
	rt.Assume(inv != nil)
	pr.Cc = new(big.Int).Sub(ip, inv.Mul(inv, d))
	pr.Cc.Mod(pr.Cc, g.N())
	ok, err := pr.Verify()
	rt.Assert("product claimed after the challenge is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// A round message adapted to its own challenge.
func verif_C20_inner_adaptive() {
	rt.Bound("P-256, vector length 2: L or R and the final scalars adapted to any of the hash values")
	g := group.P256()
	pr, _, _ := c20ipp(2, g)
	hs := c20hashes(func() { pr.Verify() })
	rt.Assume(len(hs) > 0)
	N := g.N()
	x := hs[rt.Choice("hash", len(hs))]
	inv := new(big.Int).ModInverse(x, N)
	rt.Assume(inv != nil)
	// the folded generators
	gf := g.Element().Add(g.Element().Scale(pr.Params.Gg[0], inv), g.Element().Scale(pr.Params.Gg[1], x))
	hf := g.Element().Add(g.Element().Scale(pr.Params.Hh[0], x), g.Element().Scale(pr.Params.Hh[1], inv))
	// A doubled and B halved keeps the product
	half := new(big.Int).ModInverse(big.NewInt(2), N)
	A, B := new(big.Int).Mul(pr.A, big.NewInt(2)), new(big.Int).Mul(pr.B, half)
	D := g.Element().Scale(gf, pr.A)
	D.Add(D, g.Element().Scale(hf, new(big.Int).Sub(B, pr.B)))
	if rt.Choice("side", 2) == 0 {
		D = g.Element().Scale(D, new(big.Int).Mul(inv, inv))
		pr.L = []group.Element{g.Element().Add(pr.L[0], D)}
	} else {
		D = g.Element().Scale(D, new(big.Int).Mul(x, x))
		pr.R = []group.Element{g.Element().Add(pr.R[0], D)}
	}
	pr.A, pr.B = A.Mod(A, N), B.Mod(B, N)
	ok, err := pr.Verify()
	rt.Assert("round message chosen after its challenge is rejected", !ok || err != nil)
	rt.Reach("rejected")
}
