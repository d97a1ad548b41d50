package group

import (
	"encoding/json"
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

func verif_C16_roundtrip() {
	rt.Bound("every group, all elements, new or used receivers")
	g := vgroup(rt.Choice("group", vgroups))
	a := vscalar("a", g)
	x := g.Element().BaseScale(a)
	doc, err := json.Marshal(x)
	rt.Assert("encoding succeeds", err == nil)
	r := vreceiver(g)
	rt.Assert("decoding succeeds", json.Unmarshal(doc, r) == nil)
	rt.Assert("decoding gives the element", r.IsEqual(x) && x.IsEqual(r))
	rt.Assert("the element is unchanged", x.IsEqual(g.Element().BaseScale(a)))
	b1, err1 := x.MarshalBinary()
	b2, err2 := r.MarshalBinary()
	rt.Assert("the decoded element has the same binary encoding", err1 == nil && err2 == nil && string(b1) == string(b2))
	rt.Assert("the decoded element has the same string", r.String() == x.String())
	doc2, err := json.Marshal(r)
	rt.Assert("the decoded element has the same JSON encoding", err == nil && string(doc2) == string(doc))
	rt.Assert("arithmetic on the decoded element", g.Element().Add(r, g.Generator()).IsEqual(g.Element().BaseScale(new(big.Int).Add(a, vone))))
	rt.Reach("done")
}

func verif_C16_direct() {
	rt.Bound("every group, all elements, methods called directly")
	g := vgroup(rt.Choice("group", vgroups))
	a := vscalar("a", g)
	x := g.Element().BaseScale(a)
	doc, err := x.MarshalJSON()
	rt.Assert("encoding succeeds", err == nil)
	r := vreceiver(g)
	rt.Assert("decoding succeeds", r.UnmarshalJSON(doc) == nil)
	rt.Assert("decoding gives the element", r.IsEqual(x) && x.IsEqual(r))
	rt.Reach("done")
}

func verif_C16_identity() {
	rt.Bound("every group: the identity, reached in several ways")
	g := vgroup(rt.Choice("group", vgroups))
	a := vscalar("a", g)
	var x Element
	switch rt.Choice("how", 5) {
	case 0:
		x = g.Identity()
	case 1:
		x = g.Element().BaseScale(new(big.Int))
	case 2:
		x = g.Element().BaseScale(g.N())
	case 3:
		x = g.Element().Subtract(g.Generator(), g.Generator())
	case 4:
		A := g.Element().BaseScale(a)
		x = g.Element().Add(g.Element().Negate(A), A)
	}
	doc, err := json.Marshal(x)
	rt.Assert("encoding succeeds", err == nil)
	r := vreceiver(g)
	rt.Assert("decoding succeeds", json.Unmarshal(doc, r) == nil)
	rt.Assert("decoding gives the identity", r.IsIdentity() && r.IsEqual(g.Identity()))
	rt.Reach("done")
}

// Different elements have different JSON encodings (or they could not both
// round-trip); elements in a structure keep their places.
func verif_C16_struct() {
	rt.Bound("every group, all pairs of elements, in a list")
	g := vgroup(rt.Choice("group", vgroups))
	a, b := vscalar("a", g), vscalar("b", g)
	x, y := g.Element().BaseScale(a), g.Element().BaseScale(b)
	doc, err := json.Marshal([]Element{x, y})
	rt.Assert("encoding succeeds", err == nil)
	l := []Element{g.Generator(), g.Generator()}
	rt.Assert("decoding succeeds", json.Unmarshal(doc, &l) == nil)
	rt.Assert("decoding gives the elements", len(l) == 2 && l[0].IsEqual(x) && l[1].IsEqual(y))
	rt.Reach("done")
}
