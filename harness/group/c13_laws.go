package group

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

func c13is(label string, g Group, e Element, k *big.Int) {
	want := g.Element().BaseScale(k)
	rt.Assert(label, e.IsEqual(want) && want.IsEqual(e))
}

func verif_C13_add() {
	rt.Bound("every group, all pairs of elements")
	g := vgroup(rt.Choice("group", vgroups))
	a, b := vscalar("a", g), vscalar("b", g)
	A, B := g.Element().BaseScale(a), g.Element().BaseScale(b)
	c13is("sum", g, g.Element().Add(A, B), new(big.Int).Add(a, b))
	c13is("sum commutes", g, g.Element().Add(B, A), new(big.Int).Add(a, b))
	c13is("double", g, g.Element().Add(A, A), new(big.Int).Lsh(a, 1))
	c13is("sum with the identity", g, g.Element().Add(A, g.Identity()), a)
	c13is("identity plus element", g, g.Element().Add(g.Identity(), A), a)
}

func verif_C13_subtract() {
	rt.Bound("every group, all pairs of elements")
	g := vgroup(rt.Choice("group", vgroups))
	a, b := vscalar("a", g), vscalar("b", g)
	A, B := g.Element().BaseScale(a), g.Element().BaseScale(b)
	c13is("difference", g, g.Element().Subtract(A, B), new(big.Int).Sub(a, b))
	c13is("negation", g, g.Element().Negate(A), new(big.Int).Neg(a))
	rt.Assert("element minus itself", g.Element().Subtract(A, A).IsIdentity())
	rt.Assert("element plus its negation", g.Element().Add(A, g.Element().Negate(A)).IsIdentity())
	c13is("identity minus element", g, g.Element().Subtract(g.Identity(), A), new(big.Int).Neg(a))
	rt.Assert("negated identity", g.Element().Negate(g.Identity()).IsIdentity())
}

// Scaling by any integer, of any size and sign.
func verif_C13_scale() {
	rt.Bound("every group, all elements, scalars in [-2^20 N, 2^20 N]")
	g := vgroup(rt.Choice("group", vgroups))
	a, s := vscalar("a", g), vany("s", g)
	A := g.Element().BaseScale(a)
	as := new(big.Int).Mul(a, s)
	as.Mod(as, g.N())
	c13is("scaling", g, g.Element().Scale(A, s), as)
	sm := new(big.Int).Mod(s, g.N())
	c13is("base scaling depends on the scalar modulo the order", g, g.Element().BaseScale(s), sm)
	c13is("scaling the generator", g, g.Element().Scale(g.Generator(), s), sm)
}

func verif_C13_scale_special() {
	rt.Bound("every group, all elements, scalars 0, 1, -1, 2, N-1, N, N+1, -N")
	g := vgroup(rt.Choice("group", vgroups))
	a := vscalar("a", g)
	A := g.Element().BaseScale(a)
	rt.Assert("scaling by 0", g.Element().Scale(A, new(big.Int)).IsIdentity())
	c13is("scaling by 1", g, g.Element().Scale(A, vone), a)
	c13is("scaling by -1", g, g.Element().Scale(A, big.NewInt(-1)), new(big.Int).Neg(a))
	rt.Assert("scaling by 2", g.Element().Scale(A, big.NewInt(2)).IsEqual(g.Element().Add(A, A)))
	rt.Assert("the order annihilates", g.Element().Scale(A, g.N()).IsIdentity())
	rt.Assert("the negated order annihilates", g.Element().Scale(A, new(big.Int).Neg(g.N())).IsIdentity())
	c13is("scaling by N-1", g, g.Element().Scale(A, new(big.Int).Sub(g.N(), vone)), new(big.Int).Neg(a))
	c13is("scaling by N+1", g, g.Element().Scale(A, new(big.Int).Add(g.N(), vone)), a)
	rt.Assert("scaling the identity", g.Element().Scale(g.Identity(), a).IsIdentity())
	rt.Assert("base scaling by 0", g.Element().BaseScale(new(big.Int)).IsIdentity())
	rt.Assert("base scaling by N", g.Element().BaseScale(g.N()).IsIdentity())
	rt.Assert("base scaling by 1", g.Element().BaseScale(vone).IsEqual(g.Generator()))
	rt.Assert("base scaling by -1", g.Element().BaseScale(big.NewInt(-1)).IsEqual(g.Element().Negate(g.Generator())))
}

// Equality and identity tests are those of the logarithms.
func verif_C13_equality() {
	rt.Bound("every group, all pairs of elements")
	g := vgroup(rt.Choice("group", vgroups))
	a, b := vscalar("a", g), vscalar("b", g)
	A, B := g.Element().BaseScale(a), g.Element().BaseScale(b)
	rt.Assert("equality", A.IsEqual(B) == (a.Cmp(b) == 0))
	rt.Assert("equality is symmetric", A.IsEqual(B) == B.IsEqual(A))
	rt.Assert("identity", A.IsIdentity() == (a.Sign() == 0))
	rt.Assert("equality with the identity", A.IsEqual(g.Identity()) == (a.Sign() == 0))
	rt.Assert("identity equals", g.Identity().IsEqual(A) == (a.Sign() == 0))
	rt.Assert("an element is not its negation", A.IsEqual(g.Element().Negate(A)) == (a.Sign() == 0))
	rt.Assert("identity is the identity", g.Identity().IsIdentity() && g.Identity().IsEqual(g.Identity()))
	rt.Assert("generator is not the identity", !g.Generator().IsIdentity())
	c := g.Element().Set(A)
	rt.Assert("a copy is equal", c.IsEqual(A) && A.IsEqual(c))
}

func c13hex(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

// The published constants of the named groups.
func verif_C13_constants() {
	i := rt.Choice("group", vgroups)
	g := vgroup(i)
	var p, n *big.Int
	switch i {
	case 0:
		p = c13hex("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff")
		n = c13hex("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551")
	case 1:
		p = c13hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff")
		n = c13hex("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973")
	case 2:
		p = c13hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
		n = c13hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	case 3:
		p = c13hex("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed")
		n = c13hex("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed")
	case 4:
		p = c13hex("FFFFFFFFFFFFFFFFC90FDAA22168C234C4C6628B80DC1CD129024E088A67CC74020BBEA63B139B22514A08798E3404DDEF9519B3CD3A431B302B0A6DF25F14374FE1356D6D51C245E485B576625E7EC6F44C42E9A637ED6B0BFF5CB6F406B7EDEE386BFB5A899FA5AE9F24117C4B1FE649286651ECE45B3DC2007CB8A163BF0598DA48361C55D39A69163FA8FD24CF5F83655D23DCA3AD961C62F356208552BB9ED529077096966D670C354E4ABC9804F1746C08CA18217C32905E462E36CE3BE39E772C180E86039B2783A2EC07A28FB5C55DF06F4C52C9DE2BCBF6955817183995497CEA956AE515D2261898FA051015728E5A8AAAC42DAD33170D04507A33A85521ABDF1CBA64ECFB850458DBEF0A8AEA71575D060C7DB3970F85A6E1E4C7ABF5AE8CDB0933D71E8C94E04A25619DCEE3D2261AD2EE6BF12FFA06D98A0864D87602733EC86A64521F2B18177B200CBBE117577A615D6C770988C0BAD946E208E24FA074E5AB3143DB5BFCE0FD108E4B82D120A93AD2CAFFFFFFFFFFFFFFFF")
		n = new(big.Int).Rsh(p, 1)
	case 5:
		p = c13hex("1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff1b97")
		n = new(big.Int).Rsh(p, 1)
	}
	rt.Assert("field order", g.P().Cmp(p) == 0)
	rt.Assert("group order", g.N().Cmp(n) == 0)
	e := g.Generator()
	rt.Assert("element reports the orders", e.FieldOrder().Cmp(p) == 0 && e.GroupOrder().Cmp(n) == 0)
	e = g.Element()
	rt.Assert("new element reports the orders", e.FieldOrder().Cmp(p) == 0 && e.GroupOrder().Cmp(n) == 0)
}

var c13messages = [][2]string{{"message", "messagf"}, {"message", "nessage"}, {"message", "message "}, {"m", ""}, {"Message", "message"},
	{"a message of more than sixty-four characters, the block size of SHA-256, 1", "a message of more than sixty-four characters, the block size of SHA-256, 2"}, {"g1", "g11"}, {"a\x00", "a"}}

// Hashing to the group.
func verif_C13_map() {
	rt.Bound("every curve: pairs of messages that differ in the first, the last or no more than a missing character, or are empty")
	g := vgroup(rt.Choice("group", 4))
	m := c13messages[rt.Choice("messages", len(c13messages))]
	a, err1 := g.Element().MapToGroup(m[0])
	b, err2 := g.Element().MapToGroup(m[0])
	c, err3 := g.Element().MapToGroup(m[1])
	rt.Assert("hashing to the group succeeds", err1 == nil && err2 == nil && err3 == nil)
	rt.Assert("hashing to the group is a function", a.IsEqual(b))
	rt.Assert("different messages have different elements", !a.IsEqual(c))
	rt.Assert("the order annihilates", g.Element().Scale(a, g.N()).IsIdentity())
	rt.Assert("not the identity", !a.IsIdentity())
	rt.Assert("not the generator", !a.IsEqual(g.Generator()))
}

// Random elements.
func verif_C13_random() {
	rt.Bound("every group: two random elements, every value of the draws")
	g := vgroup(rt.Choice("group", vgroups))
	from := len(rt.Draws())
	a := g.Random()
	mid := len(rt.Draws())
	b := g.Random()
	rt.Assert("each random element is drawn", mid > from && len(rt.Draws()) > mid)
	rt.Assert("two random elements differ", !a.IsEqual(b))
	rt.Assert("a random element is not the generator", !a.IsEqual(g.Generator()))
	rt.Assert("the order annihilates", g.Element().Scale(a, g.N()).IsIdentity())
	rt.Assert("a random element minus itself is the identity", g.Element().Subtract(a, a).IsIdentity())
	rt.Assert("adding the difference leads from one to the other", g.Element().Add(b, g.Element().Subtract(a, b)).IsEqual(a))
	e := g.Element()
	x, err := a.MarshalBinary()
	rt.Assert("encoding succeeds", err == nil)
	rt.Assert("decoding succeeds", e.UnmarshalBinary(x) == nil && e.IsEqual(a))
}

// Every element can be drawn in the groups that draw its logarithm.
func verif_C13_random_range() {
	rt.Bound("secp256k1 and the mod p group: every value of the draw")
	g := vgroup([]int{2, 4}[rt.Choice("group", 2)])
	v := rt.Big("v", new(big.Int), new(big.Int).Sub(g.N(), vone))
	from := len(rt.Draws())
	rt.ForceDraws(v)
	rt.DrawLimit("every logarithm can be drawn", 7)
	g.Random()
	rt.ForceDraws(nil)
	found := false
	for _, d := range rt.Draws()[from:] {
		found = found || d.Cmp(v) == 0
	}
	rt.Assert("every logarithm can be drawn", found)
}
