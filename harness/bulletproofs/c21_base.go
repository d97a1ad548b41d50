package bulletproofs

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// The base of the inner product is a further independent generator.
func verif_C21_base() {
	rt.Bound("every curve, n in {1,2,4,8,16,32}")
	g := vcurve()
	n := int64(1) << uint(rt.Choice("n", 6))
	p, err := Setup(int64(1)<<uint(n), g)
	rt.Assert("set-up succeeds", err == nil)
	if err != nil {
		return
	}
	q, err := setupInnerProduct(p.Gg, p.Hh, n, g)
	rt.Assert("inner-product set-up succeeds", err == nil)
	if err != nil {
		return
	}
	ok := !q.Uu.IsEqual(p.G) && !q.Uu.IsEqual(p.H) && !q.Uu.IsEqual(g.Identity()) && !q.Uu.IsEqual(g.Element().BaseScale(big.NewInt(-1)))
	for i := range p.Gg {
		ok = ok && !q.Uu.IsEqual(p.Gg[i]) && !q.Uu.IsEqual(p.Hh[i])
	}
	rt.Assert("the inner-product base differs from every generator", ok)
	r, err := setupInnerProduct(nil, nil, n, g)
	rt.Assert("inner-product set-up with default generators succeeds", err == nil)
	if err != nil {
		return
	}
	rt.Assert("n default generators each", int64(len(r.Gg)) == n && int64(len(r.Hh)) == n)
	same := r.Uu.IsEqual(q.Uu)
	for i := range r.Gg {
		same = same && !r.Uu.IsEqual(r.Gg[i]) && !r.Uu.IsEqual(r.Hh[i]) && !r.Gg[i].IsEqual(r.Hh[i])
	}
	rt.Assert("default generators are independent of the base, which is reproducible", same)
	_, err = setupInnerProduct(p.Gg, p.Hh, 0, g)
	rt.Assert("an empty inner product is refused", err != nil)
	rt.Reach("done")
}
