package group

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// c14op applies the operation to receiver r and operands x, y; k is the
// logarithm of the result.
func c14op(op int, g Group, r, x, y Element, a, b, s *big.Int) (Element, *big.Int) {
	switch op {
	case 0:
		return r.Add(x, y), new(big.Int).Add(a, b)
	case 1:
		return r.Subtract(x, y), new(big.Int).Sub(a, b)
	case 2:
		return r.Negate(x), new(big.Int).Neg(a)
	case 3:
		return r.Scale(x, s), new(big.Int).Mul(a, s)
	case 4:
		return r.BaseScale(s), s
	}
	return r.Set(x), a
}

const c14ops = 6

// The receiver is new, one of the operands, or both operands are the same.
func verif_C14_receiver() {
	rt.Bound("every group, every operation, receiver distinct from or equal to either operand")
	g := vgroup(rt.Choice("group", vgroups))
	a, b, s := vscalar("a", g), vscalar("b", g), vany("s", g)
	op := rt.Choice("op", c14ops)
	x, y := g.Element().BaseScale(a), g.Element().BaseScale(b)
	r := g.Element()
	shape := rt.Choice("shape", 5)
	switch shape {
	case 1:
		r = x
	case 2:
		r = y
	case 3:
		y, b = x, a
	case 4:
		y, b = x, a
		r = x
	}
	a0, b0, s0 := new(big.Int).Set(a), new(big.Int).Set(b), new(big.Int).Set(s)
	res, k := c14op(op, g, r, x, y, a, b, s)
	rt.Assert("the receiver is returned", res == r)
	want := g.Element().BaseScale(new(big.Int).Mod(k, g.N()))
	rt.Assert("the receiver holds the result", r.IsEqual(want))
	if r != x {
		rt.Assert("first operand unchanged", x.IsEqual(g.Element().BaseScale(a0)))
	}
	if r != y {
		rt.Assert("second operand unchanged", y.IsEqual(g.Element().BaseScale(b0)))
	}
	rt.Assert("scalar unchanged", s.Cmp(s0) == 0 && a.Cmp(a0) == 0)
	rt.Reach("done")
}

// A second operation on the result changes nothing else.
func verif_C14_later() {
	rt.Bound("every group: result of any operation changed by any other operation")
	g := vgroup(rt.Choice("group", vgroups))
	n0, p0 := new(big.Int).Set(g.N()), new(big.Int).Set(g.P())
	a, b := vscalar("a", g), vscalar("b", g)
	s := big.NewInt(5)
	op := rt.Choice("op", c14ops)
	var x, y Element
	x, y = g.Element().BaseScale(a), g.Element().BaseScale(b)
	r, k := c14op(op, g, g.Element(), x, y, a, b, s)
	k = new(big.Int).Mod(k, g.N())
	// change the operands, the result stays
	c14op(rt.Choice("op2", c14ops), g, x, x, y, a, b, big.NewInt(3))
	c14op(0, g, y, y, y, b, b, s)
	rt.Assert("result unaffected by later changes of the operands", r.IsEqual(g.Element().BaseScale(k)))
	// change the result, the copy stays
	x, y = g.Element().BaseScale(a), g.Element().BaseScale(b)
	r, _ = c14op(op, g, g.Element(), x, y, a, b, s)
	cp := g.Element().Set(r)
	r.Add(r, g.Generator())
	rt.Assert("copy unaffected by later changes of the original", cp.IsEqual(g.Element().BaseScale(k)))
	rt.Assert("operands unaffected by later changes of the result", x.IsEqual(g.Element().BaseScale(a)) && y.IsEqual(g.Element().BaseScale(b)))
	rt.Assert("group orders unchanged", g.N().Cmp(n0) == 0 && g.P().Cmp(p0) == 0)
	rt.Reach("done")
}

// Elements handed out as generator or identity are independent of the group.
func verif_C14_constants() {
	rt.Bound("every group: generator and identity changed by any operation, decoding included")
	vi := rt.Choice("group", vgroups)
	g := vgroup(vi)
	ref := g.Element().BaseScale(vone)
	n0, p0 := new(big.Int).Set(g.N()), new(big.Int).Set(g.P())
	enc, err := g.Generator().MarshalBinary()
	rt.Assert("encoding succeeds", err == nil)
	a := vscalar("a", g)
	other := g.Element().BaseScale(a)
	obin, err := other.MarshalBinary()
	rt.Assert("encoding succeeds", err == nil)
	ojson, err := other.MarshalJSON()
	rt.Assert("encoding succeeds", err == nil)
	var e Element
	switch rt.Choice("which", 4) {
	case 0:
		e = g.Generator()
	case 1:
		e = g.Identity()
	case 2:
		e = g.Element()
	case 3:
		e = vgroup(vi).Generator()
	}
	{
		switch rt.Choice("op", 9) {
		case 0:
			e.Add(e, other)
		case 1:
			e.Subtract(e, other)
		case 2:
			e.Negate(other)
		case 3:
			e.Scale(other, a)
		case 4:
			e.BaseScale(a)
		case 5:
			e.Set(other)
		case 6:
			rt.Assert("decoding succeeds", e.UnmarshalBinary(obin) == nil)
		case 7:
			rt.Assert("decoding succeeds", e.UnmarshalJSON(ojson) == nil)
		case 8:
			e.SetBytes(obin)
		}
		rt.Assert("generator unchanged", g.Generator().IsEqual(ref))
		rt.Assert("base scaling unchanged", g.Element().BaseScale(a).IsEqual(other))
		rt.Assert("identity unchanged", g.Identity().IsIdentity())
		rt.Assert("generator of a new group unchanged", vgroup(vi).Generator().IsEqual(vgroup(vi).Element().BaseScale(vone)))
		enc2, err := g.Generator().MarshalBinary()
		rt.Assert("encoding of the generator unchanged", err == nil && string(enc) == string(enc2))
		rt.Assert("group orders unchanged", g.N().Cmp(n0) == 0 && g.P().Cmp(p0) == 0)
	}
	rt.Reach("done")
}

// Encoding and comparing change nothing.
func verif_C14_observers() {
	rt.Bound("every group: every observing operation")
	g := vgroup(rt.Choice("group", vgroups))
	a, b := vscalar("a", g), vscalar("b", g)
	x, y := g.Element().BaseScale(a), g.Element().BaseScale(b)
	before := rt.Snap(x, y)
	bin, _ := x.MarshalBinary()
	_, _ = x.MarshalJSON()
	_ = x.String()
	_ = x.IsEqual(y)
	_ = x.IsIdentity()
	rt.Assert("observing changes nothing", rt.Same(before, rt.Snap(x, y)))
	// the encoding is the caller's
	if len(bin) > 0 {
		bin[len(bin)-1] = 1
		bin[0] = 1
	}
	rt.Assert("changing an encoding does not change the element", x.IsEqual(g.Element().BaseScale(a)))
	rt.Reach("done")
}
