package bulletproofs

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

type c06case struct {
	g    group.Group
	a, b []*big.Int
	ip   *big.Int
	pr   InnerProductProof
}

// c06honest is the argument for arbitrary vectors of length n.
func c06honest(n int, g group.Group) *c06case { return c06vectors(n, n, g) }

// c06vectors is the argument for vectors of length n, the second one arbitrary in
// its first k entries and fixed in the others.
func c06vectors(n, k int, g group.Group) *c06case {
	c := &c06case{g: g, ip: new(big.Int)}
	for i := 0; i < n; i++ {
		hi := new(big.Int).Sub(g.N(), big.NewInt(1))
		x := rt.Big(fmt.Sprintf("a%d", i), new(big.Int), hi)
		y := big.NewInt(int64(3 + 2*i))
		if i < k {
			y = rt.Big(fmt.Sprintf("b%d", i), new(big.Int), hi)
		}
		c.a, c.b = append(c.a, x), append(c.b, y)
		c.ip.Add(c.ip, new(big.Int).Mul(x, y))
	}
	c.ip.Mod(c.ip, g.N())
	params, err := setupInnerProduct(nil, nil, int64(n), g)
	rt.Assert("set-up succeeds", err == nil)
	P := commitInnerProduct(params.Gg, params.Hh, c.a, c.b, g)
	want := g.Identity()
	for i := range c.a {
		want.Add(want, g.Element().Scale(params.Gg[i], c.a[i]))
		want.Add(want, g.Element().Scale(params.Hh[i], c.b[i]))
	}
	rt.Assert("commitment is g^a h^b", P.IsEqual(want))
	claim := new(big.Int).Set(c.ip)
	c.pr, err = proveInnerProduct(c.a, c.b, P, claim, params)
	rt.Assert("prover succeeds", err == nil)
	return c
}

// c06tag tells the alterations of one proof apart.
var c06tag string

func c06delta(g group.Group) *big.Int {
	return rt.Big("d"+c06tag, big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1)))
}

func (c *c06case) shift(e group.Element) group.Element {
	g := c.g
	bases := []group.Element{c.pr.Params.Gg[0], c.pr.Params.Hh[0], c.pr.Params.Uu, g.Generator()}
	return g.Element().Add(e, g.Element().Scale(bases[rt.Choice("direction"+c06tag, 4)], c06delta(g)))
}

func c06complete(n int, g group.Group) {
	c := c06honest(n, g)
	ok, err := c.pr.Verify()
	rt.Assert("honest inner-product proof is accepted", ok && err == nil)
	rt.Reach("accepted")
}

func verif_C06_complete() {
	rt.Bound("P-256, P-384, ristretto255, vector lengths 1, 2, 4, entries anywhere in [0, N)")
	n := []int{1, 2, 4}[rt.Choice("n", 3)]
	c06complete(n, vgroup([]int{0, 1, 3}[rt.Choice("curve", 3)]))
}

func verif_C06_complete_k1() {
	rt.Bound("secp256k1, vector lengths 1 and 2, first vector anywhere in [0, N), second one fixed beyond length 1")
	n := []int{1, 2}[rt.Choice("n", 2)]
	c := c06vectors(n, 2-n, group.SecP256k1())
	ok, err := c.pr.Verify()
	rt.Assert("honest inner-product proof is accepted", ok && err == nil)
	rt.Reach("accepted")
}

func verif_C06_complete8() {
	rt.Bound("P-256, vector lengths 8, 16, 32")
	c06complete([]int{8, 16, 32}[rt.Choice("n", 3)], group.P256())
}

// alter changes one part of the proof.
func (c *c06case) alter(part int) {
	switch part {
	case 0:
		c.pr.Cc = new(big.Int).Add(c.pr.Cc, c06delta(c.g))
	case 1:
		c.pr.P = c.shift(c.pr.P)
	case 2:
		c.pr.A = new(big.Int).Add(c.pr.A, c06delta(c.g))
	case 3:
		c.pr.B = new(big.Int).Add(c.pr.B, c06delta(c.g))
	default:
		i := (part - 4) / 2
		if part%2 == 0 {
			c.pr.L[i] = c.shift(c.pr.L[i])
		} else {
			c.pr.R[i] = c.shift(c.pr.R[i])
		}
	}
}

func verif_C06_altered() {
	rt.Bound("P-256, vector lengths 1, 2, 4, 8: claimed product, commitment, final scalar or L/R entry changed by any nonzero amount")
	n := []int{1, 2, 4, 8}[rt.Choice("n", 4)]
	c := c06honest(n, group.P256())
	k := len(c.pr.L)
	c.alter(rt.Choice("part", 4+2*k))
	ok, err := c.pr.Verify()
	rt.Assert("altered inner-product proof is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

func verif_C06_curves() {
	rt.Bound("the other curves, vector length 2: wrong product or altered final scalar")
	cv := 1 + rt.Choice("curve", 3)
	k := 2
	if cv == 2 {
		k = 0
	}
	c := c06vectors(2, k, vgroup(cv))
	switch rt.Choice("part", 3) {
	case 0:
		c.pr.Cc = new(big.Int).Add(c.pr.Cc, c06delta(c.g))
	case 1:
		c.pr.A = new(big.Int).Add(c.pr.A, c06delta(c.g))
	case 2:
		c.pr.B = new(big.Int).Add(c.pr.B, c06delta(c.g))
	}
	ok, err := c.pr.Verify()
	rt.Assert("altered inner-product proof is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// The prover claims a product that is not <a,b>.
func verif_C06_claim() {
	rt.Bound("P-256, vector lengths 1, 2, 4, 8, 32: prover run on a wrong claimed product")
	n := []int{1, 2, 4, 8, 32}[rt.Choice("n", 5)]
	c := c06honest(n, group.P256())
	wrong := new(big.Int).Add(c.ip, c06delta(c.g))
	pr, err := proveInnerProduct(c.a, c.b, c.pr.P, wrong, c.pr.Params)
	if err != nil {
		rt.Reach("refused")
		return
	}
	ok, err := pr.Verify()
	rt.Assert("wrong claimed product is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

func verif_C06_lengths() {
	rt.Bound("P-256: vectors of different lengths up to 3")
	g := group.P256()
	n, m := rt.Choice("n", 4), rt.Choice("m", 4)
	rt.Assume(n != m)
	params, err := setupInnerProduct(nil, nil, 4, g)
	rt.Assert("set-up succeeds", err == nil)
	a, b := make([]*big.Int, n), make([]*big.Int, m)
	for i := range a {
		a[i] = big.NewInt(1)
	}
	for i := range b {
		b[i] = big.NewInt(2)
	}
	_, err = proveInnerProduct(a, b, g.Generator(), big.NewInt(2), params)
	rt.Assert("vectors of different lengths are refused", err != nil)
}

// An argument for vectors of length n with fewer rounds, for which a single pair
// of scalars matches the first generators.
func verif_C06_truncated() {
	rt.Bound("P-256, vector lengths 2, 4, 8: no or too few rounds, any scalars, a commitment that matches the first generators")
	n := []int{2, 4, 8}[rt.Choice("n", 3)]
	g := group.P256()
	hi := new(big.Int).Sub(g.N(), big.NewInt(1))
	a, b := rt.Big("a", big.NewInt(1), hi), rt.Big("b", big.NewInt(1), hi)
	k := []int{1, 2, 4}[rt.Choice("have", 3)]
	rt.Assume(k < n)
	params, err := setupInnerProduct(nil, nil, int64(n), g)
	rt.Assert("set-up succeeds", err == nil)
	short, err := setupInnerProduct(params.Gg[:k], params.Hh[:k], int64(k), g)
	rt.Assert("set-up of the short argument succeeds", err == nil)
	va, vb := make([]*big.Int, k), make([]*big.Int, k)
	for i := range va {
		va[i], vb[i] = new(big.Int), new(big.Int)
	}
	va[0], vb[0] = a, b
	ip := new(big.Int).Mod(new(big.Int).Mul(a, b), g.N())
	P := g.Element().Add(g.Element().Scale(params.Gg[0], a), g.Element().Scale(params.Hh[0], b))
	pr, err := proveInnerProduct(va, vb, P, ip, short)
	rt.Assert("prover succeeds", err == nil)
	pr.Params = params
	ok := false
	var verr error
	rt.Assert("verification does not panic", !rt.Panics(func() { ok, verr = pr.Verify() }))
	rt.Assert("argument with too few rounds is rejected", !ok || verr != nil)
	rt.Reach("rejected")
}

func verif_C06_pairs() {
	rt.Bound("P-256, vector lengths 1, 2, 4: each pair of parts other than the commitment changed at once by any nonzero amounts")
	n := []int{1, 2, 4}[rt.Choice("n", 3)]
	c := c06honest(n, group.P256())
	parts := 4 + 2*len(c.pr.L)
	i := rt.Choice("part", parts)
	j := i + 1 + rt.Choice("part2", parts-1)
	if j >= parts || i == 1 || j == 1 {
		// The commitment together with a final scalar or the product can be a
		// different true statement, which is rightly accepted.
		return
	}
	c06tag = ""
	c.alter(i)
	c06tag = "2"
	c.alter(j)
	c06tag = ""
	ok, err := c.pr.Verify()
	rt.Assert("an inner-product proof altered in two places is rejected, even if the deviations cancel", !ok || err != nil)
	rt.Reach("rejected")
}

// Anything at all as a proof of length one or two.
func verif_C06_anything() {
	rt.Bound("P-256, lengths 1, 2: any commitment, L and R over g0, h0, u and the generator, any product and final scalars, fixed before the challenges")
	n := 1 + rt.Choice("n", 2)
	g := group.P256()
	params, err := setupInnerProduct(nil, nil, int64(n), g)
	rt.Assert("set-up succeeds", err == nil)
	num := func(name string) *big.Int {
		return rt.Big(name, new(big.Int), new(big.Int).Sub(g.N(), big.NewInt(1)))
	}
	elem := func(name string) (group.Element, []*big.Int) {
		e := g.Identity()
		var k []*big.Int
		for i, b := range []group.Element{params.Gg[0], params.Hh[0], params.Uu, g.Generator()} {
			k = append(k, num(name+string(rune('0'+i))))
			e = g.Element().Add(e, g.Element().Scale(b, k[i]))
		}
		return e, k
	}
	var pr InnerProductProof
	var k []*big.Int
	pr.Params = params
	pr.P, k = elem("p")
	pr.Cc, pr.A, pr.B = num("c"), num("a"), num("b")
	product := new(big.Int).Mul(pr.A, pr.B)
	product.Mod(product, g.N())
	want := k[0].Cmp(pr.A) == 0 && k[1].Cmp(pr.B) == 0 && k[2].Sign() == 0 && k[3].Sign() == 0 && pr.Cc.Cmp(product) == 0
	if n == 2 {
		// the challenge of the round is not known when A and B are chosen
		var l, r group.Element
		l, _ = elem("l")
		r, _ = elem("r")
		pr.L, pr.R = []group.Element{l}, []group.Element{r}
		want = pr.A.Sign() == 0 && pr.B.Sign() == 0 && pr.P.IsIdentity() && pr.Cc.Sign() == 0 && l.IsIdentity() && r.IsIdentity()
	}
	ok, err := pr.Verify()
	rt.Assert("accepted exactly when the final scalars open the commitment to the product", (ok && err == nil) == want)
	rt.Reach("done")
}
