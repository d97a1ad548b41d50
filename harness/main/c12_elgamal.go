package main

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

const vModP = `FFFFFFFF FFFFFFFF C90FDAA2 2168C234 C4C6628B 80DC1CD1
		29024E08 8A67CC74 020BBEA6 3B139B22 514A0879 8E3404DD
		EF9519B3 CD3A431B 302B0A6D F25F1437 4FE1356D 6D51C245
		E485B576 625E7EC6 F44C42E9 A637ED6B 0BFF5CB6 F406B7ED
		EE386BFB 5A899FA5 AE9F2411 7C4B1FE6 49286651 ECE45B3D
		C2007CB8 A163BF05 98DA4836 1C55D39A 69163FA8 FD24CF5F
		83655D23 DCA3AD96 1C62F356 208552BB 9ED52907 7096966D
		670C354E 4ABC9804 F1746C08 CA18217C 32905E46 2E36CE3B
		E39E772C 180E8603 9B2783A2 EC07A28F B5C55DF0 6F4C52C9
		DE2BCBF6 95581718 3995497C EA956AE5 15D22618 98FA0510
		15728E5A 8AAAC42D AD33170D 04507A33 A85521AB DF1CBA64
		ECFB8504 58DBEF0A 8AEA7157 5D060C7D B3970F85 A6E1E4C7
		ABF5AE8C DB0933D7 1E8C94E0 4A25619D CEE3D226 1AD2EE6B
		F12FFA06 D98A0864 D8760273 3EC86A64 521F2B18 177B200C
		BBE11757 7A615D6C 770988C0 BAD946E2 08E24FA0 74E5AB31
		43DB5BFC E0FD108E 4B82D120 A93AD2CA FFFFFFFF FFFFFFFF`

func c12group(i int) group.Group {
	if i == 4 {
		return group.NewModPGroup("RFC3526ModPGroup3072", vModP, "2")
	}
	return vcurve(i)
}

func verif_C12_encrypt() {
	rt.Bound("the mod p group and the four curves; every choice of 16 bits, every key and randomness")
	g := c12group(4 - rt.Choice("group", 5))
	q := g.N()
	qBefore := new(big.Int).Set(q)
	sk := rt.Big("sk", new(big.Int), new(big.Int).Sub(q, vone))
	choice := rt.Int("choice", 0, 65535)
	pk := g.Element().BaseScale(sk)
	pkBefore := rt.Snap(pk)
	ct, r := encryptVote(uint16(choice), pk, g)
	lifted := g.Element().BaseScale(big.NewInt(int64(choice)))
	rt.Assert("randomness is in [1, q-1]", r.Sign() > 0 && r.Cmp(qBefore) < 0)
	rt.Assert("first part is the lifted randomness", ct.U.IsEqual(g.Element().BaseScale(r)))
	rt.Assert("second part is the masked choice", ct.V.IsEqual(g.Element().Add(lifted, g.Element().Scale(pk, r))))
	dec := g.Element().Subtract(ct.V, g.Element().Scale(ct.U, sk))
	rt.Assert("decryption gives the lifted choice", dec.IsEqual(lifted))
	rt.Assert("key and group order are unchanged", rt.Same(pkBefore, rt.Snap(pk)) && g.N().Cmp(qBefore) == 0)
	rt.Reach("done")
}

// Every value of [1, q-1] can be the randomness: whatever is drawn is used.
func verif_C12_full_range() {
	rt.Bound("the mod p group: every value of the draw in [0, q-2]")
	g := c12group(4)
	sk := rt.Big("sk", vone, new(big.Int).Sub(g.N(), vone))
	pk := g.Element().BaseScale(sk)
	v := rt.Big("v", new(big.Int), new(big.Int).Sub(g.N(), big.NewInt(2)))
	rt.ForceDraws(v)
	_, r := encryptVote(uint16(rt.Int("choice", 0, 65535)), pk, g)
	d := new(big.Int).Sub(r, v)
	rt.Assert("the draw covers the scalar range", d.Sign() == 0 || d.Cmp(vone) == 0)
	rt.Reach("done")
}

// Distinct choices have distinct decryptions.
func verif_C12_injective() {
	g := c12group(4 - rt.Choice("group", 5))
	a, b := rt.Int("a", 0, 65535), rt.Int("b", 0, 65535)
	rt.Assume(a != b)
	sk := rt.Big("sk", vone, new(big.Int).Sub(g.N(), vone))
	pk := g.Element().BaseScale(sk)
	ca, _ := encryptVote(uint16(a), pk, g)
	cb, _ := encryptVote(uint16(b), pk, g)
	da := g.Element().Subtract(ca.V, g.Element().Scale(ca.U, sk))
	db := g.Element().Subtract(cb.V, g.Element().Scale(cb.U, sk))
	rt.Assert("different choices decrypt differently", !da.IsEqual(db))
	rt.Reach("done")
}
