package group

import (
	"encoding/json"
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// Operands, groups and scalars that several calls use at the same time.
func verif_C27_elements() {
	rt.Bound("every group, arbitrary elements and scalar: every operation with shared operands and a receiver of its own")
	g := vgroup(rt.Choice("group", vgroups))
	hi := new(big.Int).Sub(g.N(), big.NewInt(1))
	s := rt.Big("s", new(big.Int), hi)
	a := g.Element().BaseScale(rt.Big("a", new(big.Int), hi))
	b := g.Element().Scale(g.Generator(), rt.Big("b", new(big.Int), hi))
	gen := g.Generator()
	switch rt.Choice("what", 3) {
	case 0:
		rt.Shared("concurrent arithmetic shares no state", func() {
			_ = g.Element().Add(a, b)
			_ = g.Element().Subtract(a, b)
			_ = g.Element().Negate(a)
			_ = g.Element().Scale(a, s)
			_ = g.Element().BaseScale(s)
			_ = g.Element().Set(a)
		}, g, a, b, s, gen)
	case 1:
		rt.Shared("concurrent comparison and printing share no state", func() {
			_ = a.IsEqual(b)
			_ = a.IsIdentity()
			_ = b.IsIdentity()
			_ = a.String()
			_ = a.GroupOrder()
			_ = a.FieldOrder()
			_, _, _, _, _ = g.N(), g.P(), g.Name(), g.Identity(), g.Generator()
		}, g, a, b, s, gen)
	case 2:
		rt.Shared("concurrent encoding and decoding share no state", func() {
			x, _ := a.MarshalBinary()
			_ = g.Element().UnmarshalBinary(x)
			y, _ := json.Marshal(a)
			_ = g.Element().UnmarshalJSON(y)
		}, g, a, b, s, gen)
	}
	rt.Reach("done")
}
