package bulletproofs

import (
	"fmt"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c07prove proves m values, the j-th one in [lo, hi).
func c07values(m int, bits int64) []*big.Int {
	s := make([]*big.Int, m)
	for j := range s {
		s[j] = rt.Big(fmt.Sprintf("secret%d", j), new(big.Int), new(big.Int).Sub(vpow2(bits), big.NewInt(1)))
	}
	return s
}

func c07complete(n, m int64, g group.Group) {
	p := vsetup(n, g)
	s := c07values(int(m), n/m)
	proof, gammas, err := MultiProve(s, p)
	rt.Assert("prover succeeds", err == nil)
	rt.Assert("one commitment and blinding per value", len(proof.Vs) == int(m) && len(gammas) == int(m))
	for j := range s {
		want := g.Element().Add(g.Element().BaseScale(s[j]), g.Element().Scale(p.H, gammas[j]))
		rt.Assert("commitment opens to the value with the returned blinding", proof.Vs[j].IsEqual(want))
	}
	ok, err := proof.Verify()
	rt.Assert("aggregated proof of in-range values is accepted", ok && err == nil)
	rt.Reach("accepted")
}

var c07sizes = [][2]int64{{1, 1}, {2, 1}, {2, 2}, {4, 1}, {4, 2}, {4, 4}}

func verif_C07_complete() {
	rt.Bound("P-256, (n, m) in {(1,1),(2,1),(2,2),(4,1),(4,2),(4,4)}")
	s := c07sizes[rt.Choice("size", len(c07sizes))]
	c07complete(s[0], s[1], group.P256())
}

func verif_C07_complete8() {
	rt.Bound("P-256, n = 8, 16, 32 and m = 1, 2, 4, 8")
	n := []int64{8, 16, 32}[rt.Choice("n", 3)]
	c07complete(n, []int64{1, 2, 4, 8}[rt.Choice("m", 4)], group.P256())
}

func verif_C07_curves() {
	rt.Bound("the other curves, (n, m) = (2,2)")
	c07complete(2, 2, vgroup(1+rt.Choice("curve", 3)))
}

func verif_C07_outofrange() {
	rt.Bound("P-256, n <= 4, every value anywhere in (2^bits - N, N), at least one of them outside its range")
	sz := c07sizes[rt.Choice("size", len(c07sizes))]
	n, m := sz[0], sz[1]
	g := group.P256()
	p := vsetup(n, g)
	bits := n / m
	s := c07values(int(m), bits)
	some := false
	for j := range s {
		switch rt.Choice(fmt.Sprintf("side%d", j), 3) {
		case 1:
			s[j] = rt.Big(fmt.Sprintf("out%d", j), vpow2(bits), new(big.Int).Sub(g.N(), big.NewInt(1)))
			some = true
		case 2:
			s[j] = rt.Big(fmt.Sprintf("out%d", j), new(big.Int).Sub(vpow2(bits), g.N()), big.NewInt(-1))
			some = true
		}
	}
	if !some {
		return
	}
	proof, _, err := MultiProve(s, p)
	if err != nil {
		rt.Reach("refused")
		return
	}
	ok, err := proof.Verify()
	rt.Assert("aggregated proof with an out-of-range value is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

func verif_C07_count() {
	rt.Bound("P-256, n = 1, 2, 4, 0..5 values: accepted only when the count divides n")
	n := []int64{1, 2, 4}[rt.Choice("n", 3)]
	m := rt.Choice("m", 6)
	p := vsetup(n, group.P256())
	s := make([]*big.Int, m)
	for j := range s {
		s[j] = big.NewInt(1)
	}
	var proof MultiBulletProof
	var err error
	rt.Assert("prover does not panic", !rt.Panics(func() { proof, _, err = MultiProve(s, p) }))
	valid := m > 0 && n%int64(m) == 0
	rt.Assert("prover succeeds for every count that divides n", !valid || err == nil)
	if err != nil {
		return
	}
	ok := false
	var verr error
	rt.Assert("verification does not panic", !rt.Panics(func() { ok, verr = proof.Verify() }))
	rt.Assert("accepted only when the count divides n", (ok && verr == nil) == valid)
}

// c07tag tells the alterations of one proof apart.
var c07tag string

func c07delta(g group.Group) *big.Int {
	return rt.Big("d"+c07tag, big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1)))
}

func c07alter(proof *MultiBulletProof, part int) {
	p := proof.Params
	g := p.GP
	m := len(proof.Vs)
	ip := &proof.InnerProductProof
	shift := func(e group.Element) group.Element {
		bases := []group.Element{g.Generator(), p.H, p.Gg[0], p.Hh[0]}
		return g.Element().Add(e, g.Element().Scale(bases[rt.Choice("direction"+c07tag, 4)], c07delta(g)))
	}
	num := func(v *big.Int) *big.Int { return new(big.Int).Add(v, c07delta(g)) }
	if part < m {
		proof.Vs = append([]group.Element(nil), proof.Vs...)
		proof.Vs[part] = shift(proof.Vs[part])
		return
	}
	switch part - m {
	case 0:
		proof.A = shift(proof.A)
	case 1:
		proof.S = shift(proof.S)
	case 2:
		proof.T1 = shift(proof.T1)
	case 3:
		proof.T2 = shift(proof.T2)
	case 4:
		proof.Taux = num(proof.Taux)
	case 5:
		proof.Mu = num(proof.Mu)
	case 6:
		proof.Tprime = num(proof.Tprime)
	case 7:
		ip.P = shift(ip.P)
	case 8:
		ip.Cc = num(ip.Cc)
	case 9:
		ip.A = num(ip.A)
	case 10:
		ip.B = num(ip.B)
	default:
		i := part - m - 11
		if i%2 == 0 {
			ip.L = append([]group.Element(nil), ip.L...)
			ip.L[i/2] = shift(ip.L[i/2])
		} else {
			ip.R = append([]group.Element(nil), ip.R...)
			ip.R[i/2] = shift(ip.R[i/2])
		}
	}
}

func verif_C07_altered() {
	rt.Bound("P-256, (n, m) in {(1,1),(2,2),(4,2),(8,8),(32,4)}: each component altered by any nonzero amount")
	sz := [][2]int64{{1, 1}, {2, 2}, {4, 2}, {8, 8}, {32, 4}}[rt.Choice("size", 5)]
	p := vsetup(sz[0], group.P256())
	proof, _, err := MultiProve(c07values(int(sz[1]), sz[0]/sz[1]), p)
	rt.Assert("prover succeeds", err == nil)
	c07alter(&proof, rt.Choice("part", int(sz[1])+11+2*len(proof.InnerProductProof.L)))
	ok, err := proof.Verify()
	rt.Assert("altered aggregated proof is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// The list of commitments is changed as a whole.
func verif_C07_list() {
	rt.Bound("P-256, (n, m) = (4,2): commitments reordered, dropped, repeated or added")
	p := vsetup(4, group.P256())
	s := c07values(2, 2)
	rt.Assume(s[0].Cmp(s[1]) != 0)
	proof, _, err := MultiProve(s, p)
	rt.Assert("prover succeeds", err == nil)
	v := proof.Vs
	switch rt.Choice("what", 5) {
	case 0:
		proof.Vs = []group.Element{v[1], v[0]}
	case 1:
		proof.Vs = []group.Element{v[0]}
	case 2:
		proof.Vs = []group.Element{v[0], v[0]}
	case 3:
		proof.Vs = []group.Element{v[0], v[1], p.GP.Identity(), p.GP.Identity()}
	case 4:
		proof.Vs = nil
	}
	ok := true
	var verr error
	rt.Assert("verification does not panic", !rt.Panics(func() { ok, verr = proof.Verify() }))
	rt.Assert("changed list of commitments is rejected", !ok || verr != nil)
	rt.Reach("rejected")
}

// The inner-product part over generators the prover chose.
func verif_C07_generators() {
	rt.Bound("P-256, (n, m) in {(1,1),(2,2)}: inner-product part over prover-chosen generators")
	n := []int64{1, 2}[rt.Choice("n", 2)]
	p := vsetup(n, group.P256())
	g := p.GP
	proof, _, err := MultiProve(c07values(int(n), 1), p)
	rt.Assert("prover succeeds", err == nil)
	ip := proof.InnerProductProof
	h0 := g.Element().BaseScale(c07delta(g))
	gg := []group.Element{g.Element().Subtract(ip.P, g.Element().Scale(h0, ip.Cc))}
	hh := []group.Element{h0}
	a, b := []*big.Int{big.NewInt(1)}, []*big.Int{ip.Cc}
	if n == 2 {
		gg, hh = append(gg, g.Generator()), append(hh, g.Generator())
		a, b = append(a, new(big.Int)), append(b, new(big.Int))
	}
	params, err := setupInnerProduct(gg, hh, n, g)
	rt.Assert("inner-product set-up succeeds", err == nil)
	proof.InnerProductProof, err = proveInnerProduct(a, b, ip.P, ip.Cc, params)
	rt.Assert("inner-product prover succeeds", err == nil)
	ok, err := proof.Verify()
	rt.Assert("inner-product part over other generators is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

// t' and the claimed product differ as numbers.
func verif_C07_pairs() {
	rt.Bound("P-256, (n, m) in {(1,1),(2,2)}: t' replaced by any other number between -2N and 2N, the rest honest")
	m := 1 + rt.Choice("m", 2)
	p := vsetup(int64(m), group.P256())
	proof, _, err := MultiProve(c07values(m, 1), p)
	rt.Assert("prover succeeds", err == nil)
	N := p.GP.N()
	t := new(big.Int)
	switch rt.Choice("what", 2) {
	case 0:
		t = rt.Big("t", new(big.Int).Lsh(new(big.Int).Neg(N), 1), new(big.Int).Lsh(N, 1))
	case 1:
		t.Neg(proof.InnerProductProof.Cc)
	}
	d := new(big.Int).Sub(t, proof.Tprime)
	rt.Assume(d.Mod(d, N).Sign() != 0)
	proof.Tprime = t
	ok, err := proof.Verify()
	rt.Assert("another t' is rejected", !ok || err != nil)
	rt.Reach("rejected")
}

func verif_C07_twoparts() {
	rt.Bound("P-256, (n, m) = (2,2): each pair of components altered at once by any nonzero amounts")
	p := vsetup(2, group.P256())
	proof, _, err := MultiProve(c07values(2, 1), p)
	rt.Assert("prover succeeds", err == nil)
	parts := 2 + 11 + 2*len(proof.InnerProductProof.L)
	i := rt.Choice("part", parts)
	j := i + 1 + rt.Choice("part2", parts-1)
	if j >= parts {
		return
	}
	c07tag = ""
	c07alter(&proof, i)
	c07tag = "2"
	c07alter(&proof, j)
	c07tag = ""
	ok, err := proof.Verify()
	rt.Assert("an aggregated proof altered in two places is rejected, even if the deviations cancel", !ok || err != nil)
	rt.Reach("rejected")
}
