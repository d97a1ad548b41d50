package group

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

func verif_C15_roundtrip() {
	rt.Bound("every group, all elements, new or used receivers")
	g := vgroup(rt.Choice("group", vgroups))
	a := vscalar("a", g)
	x := g.Element().BaseScale(a)
	bin, err := x.MarshalBinary()
	rt.Assert("encoding succeeds", err == nil)
	r := vreceiver(g)
	rt.Assert("decoding succeeds", r.UnmarshalBinary(bin) == nil)
	rt.Assert("decoding gives the element", r.IsEqual(x) && x.IsEqual(r))
	rt.Assert("the element is unchanged", x.IsEqual(g.Element().BaseScale(a)))
	again, err := r.MarshalBinary()
	rt.Assert("the decoded element has the same encoding", err == nil && string(again) == string(bin))
	rt.Assert("the decoded element has the same string", r.String() == x.String())
	s := g.Element().SetBytes(bin)
	rt.Assert("setting from bytes gives the element", s.IsEqual(x))
	// the decoded element takes part in arithmetic
	rt.Assert("arithmetic on the decoded element", g.Element().Add(r, g.Generator()).IsEqual(g.Element().BaseScale(new(big.Int).Add(a, vone))))
	rt.Assert("scaling the decoded element", g.Element().Scale(r, big.NewInt(3)).IsEqual(g.Element().BaseScale(new(big.Int).Mul(a, big.NewInt(3)))))
	rt.Reach("done")
}

func verif_C15_identity() {
	rt.Bound("every group: the identity, reached in several ways")
	g := vgroup(rt.Choice("group", vgroups))
	a := vscalar("a", g)
	var x Element
	switch rt.Choice("how", 5) {
	case 0:
		x = g.Identity()
	case 1:
		x = g.Element().BaseScale(new(big.Int))
	case 2:
		x = g.Element().BaseScale(g.N())
	case 3:
		x = g.Element().Subtract(g.Generator(), g.Generator())
	case 4:
		A := g.Element().BaseScale(a)
		x = g.Element().Add(g.Element().Negate(A), A)
	}
	bin, err := x.MarshalBinary()
	rt.Assert("encoding succeeds", err == nil)
	r := vreceiver(g)
	rt.Assert("decoding succeeds", r.UnmarshalBinary(bin) == nil)
	rt.Assert("decoding gives the identity", r.IsIdentity() && r.IsEqual(g.Identity()))
	want, err := g.Identity().MarshalBinary()
	rt.Assert("the identity has one encoding", err == nil && string(bin) == string(want) && x.String() == g.Identity().String())
	rt.Assert("setting from bytes gives the identity", g.Generator().SetBytes(bin).IsIdentity())
	rt.Reach("done")
}

func verif_C15_injective() {
	rt.Bound("every group, all pairs of different elements")
	g := vgroup(rt.Choice("group", vgroups))
	a, b := vscalar("a", g), vscalar("b", g)
	rt.Assume(a.Cmp(b) != 0)
	x, y := g.Element().BaseScale(a), g.Element().BaseScale(b)
	bx, err1 := x.MarshalBinary()
	by, err2 := y.MarshalBinary()
	rt.Assert("encoding succeeds", err1 == nil && err2 == nil)
	rt.Assert("different elements have different encodings", string(bx) != string(by))
	rt.Assert("different elements have different strings", x.String() != y.String())
	rt.Reach("done")
}

// An element and its negation, and the identity: the pairs most easily confused.
func verif_C15_negation() {
	rt.Bound("every group, all elements but the identity")
	g := vgroup(rt.Choice("group", vgroups))
	a := rt.Big("a", big.NewInt(1), new(big.Int).Sub(g.N(), vone))
	x := g.Element().BaseScale(a)
	y := g.Element().Negate(x)
	if rt.Bool("identity") {
		y = g.Identity()
	}
	bx, err1 := x.MarshalBinary()
	by, err2 := y.MarshalBinary()
	rt.Assert("encoding succeeds", err1 == nil && err2 == nil)
	rt.Assert("different elements have different encodings", string(bx) != string(by))
	rt.Assert("different elements have different strings", x.String() != y.String())
	rt.Reach("done")
}

// The encoding and the string are functions of the element, not of the way it
// was computed.
func verif_C15_function() {
	rt.Bound("every group, all elements, computed in two ways")
	g := vgroup(rt.Choice("group", vgroups))
	a, b := vscalar("a", g), vscalar("b", g)
	A, B := g.Element().BaseScale(a), g.Element().BaseScale(b)
	var x, y Element
	switch rt.Choice("way", 4) {
	case 0:
		x, y = g.Element().Add(A, B), g.Element().BaseScale(new(big.Int).Add(a, b))
	case 1:
		x, y = g.Element().Subtract(A, B), g.Element().Add(g.Element().Negate(B), A)
	case 2:
		x, y = g.Element().Add(A, A), g.Element().Scale(A, big.NewInt(2))
	case 3:
		x, y = g.Element().Scale(A, new(big.Int).Sub(g.N(), vone)), g.Element().Negate(A)
	}
	bx, err1 := x.MarshalBinary()
	by, err2 := y.MarshalBinary()
	rt.Assert("encoding succeeds", err1 == nil && err2 == nil)
	rt.Assert("equal elements have equal encodings", string(bx) == string(by))
	rt.Assert("equal elements have equal strings", x.String() == y.String())
	rt.Reach("done")
}

// The decoded element does not share memory with the encoding.
func verif_C15_memory() {
	rt.Bound("every group: the encoding overwritten after decoding")
	g := vgroup(rt.Choice("group", vgroups))
	a := big.NewInt(7)
	bin, _ := g.Element().BaseScale(a).MarshalBinary()
	r := g.Element()
	rt.Assert("decoding succeeds", r.UnmarshalBinary(bin) == nil)
	for i := range bin {
		bin[i] = 0
	}
	rt.Assert("overwriting the encoding does not change the element", r.IsEqual(g.Element().BaseScale(a)))
	rt.Reach("done")
}
