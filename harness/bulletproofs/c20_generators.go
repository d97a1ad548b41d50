package bulletproofs

import (
	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Every generator of a long vector is bound.
func verif_C20_generators() {
	rt.Bound("P-256, vector length 32: any one of the 64 generators changed by any nonzero amount")
	g := group.P256()
	pr, _, _ := c20ipp(32, g)
	before := c20hashes(func() { pr.Verify() })
	d := c20delta(g)
	gg, hh := append([]group.Element(nil), pr.Params.Gg...), append([]group.Element(nil), pr.Params.Hh...)
	i := rt.Choice("i", 32)
	if rt.Choice("vector", 2) == 0 {
		gg[i] = g.Element().Add(gg[i], g.Element().BaseScale(d))
	} else {
		hh[i] = g.Element().Add(hh[i], g.Element().BaseScale(d))
	}
	pr.Params.Gg, pr.Params.Hh = gg, hh
	after := c20hashes(func() { pr.Verify() })
	if len(before) == 0 || len(after) != len(before) {
		return
	}
	rt.Assert("the challenge and those of all later rounds change", c20changed(before, after) >= len(before))
	rt.Reach("compared")
}
