package bulletproofs

import (
	"encoding/json"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

func c18els(a, b []group.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].IsEqual(b[i]) {
			return false
		}
	}
	return true
}

// c18equal asserts that the decoded proof has the components of the original.
func c18equal(p, q BulletProof) {
	rt.Assert("decoded elements are equal", p.V.IsEqual(q.V) && p.A.IsEqual(q.A) && p.S.IsEqual(q.S) && p.T1.IsEqual(q.T1) && p.T2.IsEqual(q.T2))
	rt.Assert("decoded scalars are equal", p.Taux.Cmp(q.Taux) == 0 && p.Mu.Cmp(q.Mu) == 0 && p.Tprime.Cmp(q.Tprime) == 0)
	x, y := p.InnerProductProof, q.InnerProductProof
	rt.Assert("decoded inner-product elements are equal", x.P.IsEqual(y.P) && c18els(x.L, y.L) && c18els(x.R, y.R))
	rt.Assert("decoded inner-product scalars are equal", x.A.Cmp(y.A) == 0 && x.B.Cmp(y.B) == 0 && x.Cc.Cmp(y.Cc) == 0)
	rt.Assert("decoded inner-product parameters are equal", x.Params.Uu.IsEqual(y.Params.Uu) && c18els(x.Params.Gg, y.Params.Gg) && c18els(x.Params.Hh, y.Params.Hh))
	rt.Assert("decoded parameters are the verifier's", p.Params.N == q.Params.N && q.Params.G.IsEqual(p.Params.G) && q.Params.H.IsEqual(p.Params.H) && c18els(p.Params.Gg, q.Params.Gg) && c18els(p.Params.Hh, q.Params.Hh))
}

// A proof made by the prover.
func verif_C18_range() {
	rt.Bound("every curve, n=2, every secret in [0, 4)")
	c18range(vcurve(), 2)
}

func verif_C18_range_large() {
	rt.Bound("P-256, P-384 and ristretto255, n = 1, 8, 16, every secret in range")
	c18range(vgroup([]int{0, 1, 3}[rt.Choice("group", 3)]), []int64{1, 8, 16}[rt.Choice("n", 3)])
}

func c18range(g group.Group, n int64) {
	params := vsetup(n, g)
	secret := rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(n), big.NewInt(1)))
	p, _, err := Prove(secret, params)
	rt.Assert("proving succeeds", err == nil)
	doc, err := json.Marshal(p)
	rt.Assert("encoding succeeds", err == nil)
	q, err := BulletProofUnmarshalJSON(doc, params)
	rt.Assert("decoding succeeds", err == nil)
	c18equal(p, q)
	ok, err := q.Verify()
	rt.Assert("decoded proof is accepted", ok && err == nil)
	rt.Reach("done")
}

// Any proof-shaped object, with elements and scalars of any value.
func verif_C18_object() {
	rt.Bound("every curve, n=2, any elements, scalars in [-2^400, 2^400], lists of 0 to 2 entries")
	g := vcurve()
	params := vsetup(2, g)
	lim := vpow2(400)
	el := func(name string) group.Element {
		return g.Element().BaseScale(rt.Big(name, new(big.Int), new(big.Int).Sub(g.N(), big.NewInt(1))))
	}
	sc := func(name string) *big.Int { return rt.Big(name, new(big.Int).Neg(lim), lim) }
	f := el("f")
	var p BulletProof
	p.Params = params
	p.V, p.A, p.S, p.T1, p.T2 = f, f, f, f, f
	p.Taux, p.Mu, p.Tprime = sc("taux"), sc("mu"), sc("tprime")
	ip := &p.InnerProductProof
	ip.P = f
	ip.A, ip.B, ip.Cc = sc("a"), sc("b"), sc("c")
	ip.Params.Uu, ip.Params.GP = f, g
	k := rt.Choice("rounds", 3)
	for i := 0; i < k; i++ {
		ip.L = append(ip.L, f)
		ip.R = append(ip.R, f)
		ip.Params.Gg = append(ip.Params.Gg, f)
		ip.Params.Hh = append(ip.Params.Hh, f)
	}
	places := []*group.Element{&p.V, &p.A, &p.S, &p.T1, &p.T2, &ip.P, &ip.Params.Uu}
	if k > 0 {
		places = append(places, &ip.L[k-1], &ip.R[0], &ip.Params.Gg[0], &ip.Params.Hh[k-1])
	}
	*places[rt.Choice("place", len(places))] = el("e")
	doc, err := json.Marshal(p)
	rt.Assert("encoding succeeds", err == nil)
	q, err := BulletProofUnmarshalJSON(doc, params)
	rt.Assert("decoding succeeds", err == nil)
	c18equal(p, q)
	rt.Reach("done")
}

// A rejected proof stays rejected.
func verif_C18_rejected() {
	rt.Bound("P-256, n=2, one component changed by any amount")
	g := vgroup(0)
	params := vsetup(2, g)
	p, _, err := Prove(big.NewInt(2), params)
	rt.Assert("proving succeeds", err == nil)
	d := rt.Big("d", big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1)))
	ip := &p.InnerProductProof
	els := []*group.Element{&p.V, &p.A, &p.S, &p.T1, &p.T2, &ip.P, &ip.L[0], &ip.R[0]}
	scs := []**big.Int{&p.Taux, &p.Mu, &p.Tprime, &ip.A, &ip.B, &ip.Cc}
	i := rt.Choice("place", len(els)+len(scs))
	if i < len(els) {
		*els[i] = g.Element().Add(*els[i], g.Element().BaseScale(d))
	} else {
		s := scs[i-len(els)]
		*s = new(big.Int).Add(*s, d)
	}
	ok, _ := p.Verify()
	doc, err := json.Marshal(p)
	rt.Assert("encoding succeeds", err == nil)
	q, err := BulletProofUnmarshalJSON(doc, params)
	rt.Assert("decoding succeeds", err == nil)
	ok2, _ := q.Verify()
	rt.Assert("the verdict on the decoded proof is the verdict on the original", ok == ok2)
	rt.Assert("the changed proof is rejected", !ok2)
	rt.Reach("done")
}
