package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c23tamper changes at most one component, by any amount.
func c23tamper(g group.Group, els []*group.Element, scs []**big.Int) bool {
	i := rt.Choice("place", len(els)+len(scs)+1)
	if i == len(els)+len(scs) {
		return false
	}
	d := rt.Big("d", big.NewInt(1), new(big.Int).Sub(g.N(), big.NewInt(1)))
	if i < len(els) {
		*els[i] = g.Element().Add(*els[i], g.Element().BaseScale(d))
	} else {
		s := scs[i-len(els)]
		*s = new(big.Int).Sub(*s, d)
	}
	return true
}

// Three verifications of one proof, the parameters shared with another proof.
func verif_C23_range() {
	rt.Bound("every curve, n=2, every secret in [0,4), honest proof or any one component changed by any amount; three verifications")
	c23range(vcurve(), 2, rt.Big("secret", new(big.Int), big.NewInt(3)))
}

func verif_C23_large() {
	rt.Bound("P-256, n = 1, 8, 16, honest proof of any value or any one component changed by any amount; three verifications")
	n := []int64{1, 8, 16}[rt.Choice("n", 3)]
	c23range(vgroup(0), n, rt.Big("secret", new(big.Int), new(big.Int).Sub(vpow2(n), big.NewInt(1))))
}

func c23range(g group.Group, n int64, secret *big.Int) {
	params := vsetup(n, g)
	p, _, err := Prove(secret, params)
	rt.Assert("proving succeeds", err == nil)
	ip := &p.InnerProductProof
	els := []*group.Element{&p.V, &p.A, &p.S, &p.T1, &p.T2, &ip.P}
	if n > 1 {
		els = append(els, &ip.L[0], &ip.R[len(ip.R)-1])
	}
	scs := []**big.Int{&p.Taux, &p.Mu, &p.Tprime, &ip.A, &ip.B, &ip.Cc}
	changed := c23tamper(g, els, scs)
	before := rt.Snap(p, params, secret)
	ok1, _ := p.Verify()
	rt.Assert("verification leaves the proof and the parameters as they were", rt.Same(before, rt.Snap(p, params, secret)))
	ok2, _ := p.Verify()
	ok3, _ := p.Verify()
	rt.Assert("every verification gives the same verdict", ok1 == ok2 && ok2 == ok3)
	rt.Assert("honest proofs are accepted each time", changed || ok3)
	rt.Reach("done")
}

// Proving and verifying share parameters: neither changes them or the secret.
func verif_C23_shared() {
	rt.Bound("every curve, n=2: two provers and verifiers share the parameters, the first proof is honest or has one component changed")
	g := vcurve()
	params := vsetup(2, g)
	s1, s2 := big.NewInt(3), big.NewInt(1)
	before := rt.Snap(params, s1, s2, g.N(), g.P())
	gen := g.Generator()
	p, gm, err := Prove(s1, params)
	q, _, err2 := Prove(s2, params)
	rt.Assert("proving succeeds", err == nil && err2 == nil)
	rt.Assert("proving leaves the parameters and the secrets as they were", rt.Same(before, rt.Snap(params, s1, s2, g.N(), g.P())))
	qs := rt.Snap(q, gm)
	ip := &p.InnerProductProof
	els := []*group.Element{&p.V, &p.A, &p.T2, &ip.P}
	scs := []**big.Int{&p.Mu, &ip.A}
	changed := c23tamper(g, els, scs)
	ok, _ := p.Verify()
	rt.Assert("verdict on the first proof", ok == !changed)
	rt.Assert("verifying one proof leaves the other and the parameters as they were", rt.Same(qs, rt.Snap(q, gm)) && rt.Same(before, rt.Snap(params, s1, s2, g.N(), g.P())))
	ok2, _ := q.Verify()
	rt.Assert("the second proof is accepted whatever was verified before", ok2)
	rt.Assert("the generator is unchanged", gen.IsEqual(g.Generator()) && g.Generator().IsEqual(g.Element().BaseScale(big.NewInt(1))))
	rt.Reach("done")
}

// Aggregated proofs.
func verif_C23_multi() {
	rt.Bound("P-256, n=4, two 2-bit values, honest proof or any one component changed; three verifications")
	g := vgroup(0)
	params := vsetup(4, g)
	v := []*big.Int{rt.Big("v0", new(big.Int), big.NewInt(3)), rt.Big("v1", new(big.Int), big.NewInt(3))}
	sb := rt.Snap(params, v)
	p, _, err := MultiProve(v, params)
	rt.Assert("proving succeeds", err == nil)
	rt.Assert("proving leaves the parameters and the secrets as they were", rt.Same(sb, rt.Snap(params, v)))
	ip := &p.InnerProductProof
	els := []*group.Element{&p.Vs[0], &p.Vs[1], &p.A, &p.S, &p.T1, &p.T2, &ip.P, &ip.L[0], &ip.R[1]}
	scs := []**big.Int{&p.Taux, &p.Mu, &p.Tprime, &ip.A, &ip.B, &ip.Cc}
	changed := c23tamper(g, els, scs)
	before := rt.Snap(p, params)
	ok1, _ := p.Verify()
	rt.Assert("verification leaves the proof and the parameters as they were", rt.Same(before, rt.Snap(p, params)))
	ok2, _ := p.Verify()
	ok3, _ := p.Verify()
	rt.Assert("every verification gives the same verdict", ok1 == ok2 && ok2 == ok3)
	rt.Assert("honest proofs are accepted each time", changed || ok3)
	rt.Reach("done")
}

// The lists of a proof are parts of longer ones, whose other entries belong to
// other proofs.
func verif_C23_backing() {
	rt.Bound("P-256: range proof (n=4) and aggregated proof (n=4, m=2), honest, whose lists are parts of longer lists")
	g := vgroup(0)
	params := vsetup(4, g)
	// embed returns l as a part of a longer list.
	embed := func(l []group.Element) ([]group.Element, []group.Element) {
		all := append([]group.Element{}, l...)
		for i := int64(0); i < 5; i++ {
			all = append(all, g.Element().BaseScale(big.NewInt(7+i)))
		}
		return all[:len(l)], all
	}
	var lists [5][]group.Element
	var verify func() bool
	if rt.Choice("kind", 2) == 0 {
		p, _, err := Prove(rt.Big("secret", new(big.Int), big.NewInt(15)), params)
		rt.Assert("proving succeeds", err == nil)
		ip := &p.InnerProductProof
		ip.L, lists[0] = embed(ip.L)
		ip.R, lists[1] = embed(ip.R)
		p.Params.Gg, lists[2] = embed(params.Gg)
		p.Params.Hh, lists[3] = embed(params.Hh)
		verify = func() bool { ok, _ := p.Verify(); return ok }
	} else {
		v := []*big.Int{rt.Big("v0", new(big.Int), big.NewInt(3)), rt.Big("v1", new(big.Int), big.NewInt(3))}
		p, _, err := MultiProve(v, params)
		rt.Assert("proving succeeds", err == nil)
		ip := &p.InnerProductProof
		ip.L, lists[0] = embed(ip.L)
		ip.R, lists[1] = embed(ip.R)
		p.Params.Gg, lists[2] = embed(params.Gg)
		p.Params.Hh, lists[3] = embed(params.Hh)
		p.Vs, lists[4] = embed(p.Vs)
		verify = func() bool { ok, _ := p.Verify(); return ok }
	}
	before := rt.Snap(lists)
	rt.Assert("honest proof is accepted", verify())
	rt.Assert("verification leaves what lies behind the lists of the proof as it was", rt.Same(before, rt.Snap(lists)))
	rt.Assert("honest proof is accepted again", verify())
	rt.Reach("done")
}

// The prover's lists are parts of longer ones.
func verif_C23_inputs() {
	rt.Bound("P-256: inner-product prover (length 4) and aggregated prover (n=4, m=2) on lists that are parts of longer lists")
	g := vgroup(0)
	params := vsetup(4, g)
	num := func(n int) []*big.Int {
		l := make([]*big.Int, 0, n+6)
		for i := 0; i < n; i++ {
			l = append(l, rt.Big("v"+string(rune('0'+i)), new(big.Int), big.NewInt(3)))
		}
		for i := int64(0); i < 6; i++ {
			l = append(l, big.NewInt(50+i))
		}
		return l
	}
	gg := append(append(make([]group.Element, 0, 20), params.Gg...), params.Hh...)
	hh := append(append(make([]group.Element, 0, 20), params.Hh...), params.Gg...)
	params.Gg, params.Hh = gg[:4], hh[:4]
	if rt.Choice("kind", 2) == 0 {
		l := num(2)
		before := rt.Snap(l, gg, hh)
		_, _, err := MultiProve(l[:2], params)
		rt.Assert("proving succeeds", err == nil)
		rt.Assert("proving leaves what lies behind its lists as it was", rt.Same(before, rt.Snap(l, gg, hh)))
	} else {
		l := num(8)
		a, b := l[:4], l[4:8]
		before := rt.Snap(l, gg, hh)
		ipp, err := setupInnerProduct(params.Gg, params.Hh, 4, g)
		rt.Assert("set-up succeeds", err == nil)
		P := commitInnerProduct(params.Gg, params.Hh, a, b, g)
		c, _ := ScalarProduct(a, b, g)
		pr, err := proveInnerProduct(a, b, P, c, ipp)
		rt.Assert("proving succeeds", err == nil)
		ok, _ := pr.Verify()
		rt.Assert("honest proof is accepted", ok)
		rt.Assert("proving leaves what lies behind its lists as it was", rt.Same(before, rt.Snap(l, gg, hh)))
	}
	rt.Reach("done")
}
