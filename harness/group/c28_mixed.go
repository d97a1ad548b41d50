package group

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// c28group are the groups of vgroup and mod p groups that have something in common with them.
func c28group(i int) Group {
	switch i {
	case 6: // same name and generator as group 5
		return NewModPGroup("p257", "1000000000000000000000000000000000000000000000000000000000003832f", "4")
	case 7: // same modulus and name as group 5
		return NewModPGroup("p257", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff1b97", "9")
	}
	return vgroup(i)
}

const c28groups = 8

func c28apply(op int, r, x, y Element, s *big.Int) {
	switch op {
	case 0:
		r.Add(x, y)
	case 1:
		r.Add(y, x)
	case 2:
		r.Add(y, y)
	case 3:
		r.Subtract(x, y)
	case 4:
		r.Subtract(y, x)
	case 5:
		r.Subtract(y, y)
	case 6:
		r.Negate(y)
	case 7:
		r.Scale(y, s)
	case 8:
		r.Set(y)
	case 9:
		r.IsEqual(y)
	}
}

// y belongs to another group than the receiver r and x.
func verif_C28_mixed() {
	rt.Bound("5 groups, and mod p groups that share name, modulus or generator: every pair of different ones, every operation with an operand of the other one, any elements")
	i, j := rt.Choice("group", c28groups), rt.Choice("other", c28groups)
	if i == j {
		return
	}
	op := rt.Choice("op", 10)
	g, h := c28group(i), c28group(j)
	r, x, y, s := velem("r", g), velem("x", g), velem("y", h), vany("s", g)
	switch rt.Choice("operand", 3) {
	case 1:
		y = h.Generator()
	case 2:
		y = h.Identity()
	}
	before := rt.Snap(r, x, y, s)
	refused := rt.Panics(func() { c28apply(op, r, x, y, s) })
	rt.Assert("an operand of another group is refused", refused)
	rt.Assert("nothing changed", rt.Same(before, rt.Snap(r, x, y, s)))
	rt.Reach("done")
}

// Two descriptions of the same group.
func verif_C28_same() {
	rt.Bound("every group: elements of two descriptions of it, every operation, any elements")
	i := rt.Choice("group", vgroups)
	op := rt.Choice("op", 10)
	g, h := vgroup(i), vgroup(i)
	a, b, s := vscalar("a", g), vscalar("b", h), vany("s", g)
	x, y := g.Element().BaseScale(a), h.Element().BaseScale(b)
	r := g.Element()
	refused := rt.Panics(func() { c28apply(op, r, x, y, s) })
	rt.Assert("an operand of the same group is accepted", !refused)
	if refused {
		return
	}
	var k *big.Int
	switch op {
	case 0, 1:
		k = new(big.Int).Add(a, b)
	case 2:
		k = new(big.Int).Add(b, b)
	case 3:
		k = new(big.Int).Sub(a, b)
	case 4:
		k = new(big.Int).Sub(b, a)
	case 5:
		k = new(big.Int)
	case 6:
		k = new(big.Int).Neg(b)
	case 7:
		k = new(big.Int).Mul(b, s)
	case 8:
		k = b
	case 9:
		return
	}
	rt.Assert("the result is the one within the group", r.IsEqual(h.Element().BaseScale(k)) && r.IsEqual(g.Element().BaseScale(k)))
	rt.Reach("done")
}

// The groups describe themselves.
func verif_C28_names() {
	rt.Bound("every group and the elements of either description")
	i, j := rt.Choice("group", vgroups), rt.Choice("other", vgroups)
	g, h := vgroup(i), vgroup(j)
	rt.Assert("names tell the groups apart", (g.Name() == h.Name()) == (i == j))
	a, e1 := g.MarshalJSON()
	b, e2 := h.MarshalJSON()
	rt.Assert("JSON descriptions tell the groups apart", e1 == nil && e2 == nil && (string(a) == string(b)) == (i == j))
	x := velem("x", g)
	rt.Assert("an element knows its group's orders", x.GroupOrder().Cmp(g.N()) == 0 && x.FieldOrder().Cmp(g.P()) == 0)
	y := g.Element()
	rt.Assert("so does a new one", y.GroupOrder().Cmp(g.N()) == 0 && y.FieldOrder().Cmp(g.P()) == 0)
	rt.Reach("done")
}
