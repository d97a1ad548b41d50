package group

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

const vModP = `FFFFFFFF FFFFFFFF C90FDAA2 2168C234 C4C6628B 80DC1CD1
		29024E08 8A67CC74 020BBEA6 3B139B22 514A0879 8E3404DD
		EF9519B3 CD3A431B 302B0A6D F25F1437 4FE1356D 6D51C245
		E485B576 625E7EC6 F44C42E9 A637ED6B 0BFF5CB6 F406B7ED
		EE386BFB 5A899FA5 AE9F2411 7C4B1FE6 49286651 ECE45B3D
		C2007CB8 A163BF05 98DA4836 1C55D39A 69163FA8 FD24CF5F
		83655D23 DCA3AD96 1C62F356 208552BB 9ED52907 7096966D
		670C354E 4ABC9804 F1746C08 CA18217C 32905E46 2E36CE3B
		E39E772C 180E8603 9B2783A2 EC07A28F B5C55DF0 6F4C52C9
		DE2BCBF6 95581718 3995497C EA956AE5 15D22618 98FA0510
		15728E5A 8AAAC42D AD33170D 04507A33 A85521AB DF1CBA64
		ECFB8504 58DBEF0A 8AEA7157 5D060C7D B3970F85 A6E1E4C7
		ABF5AE8C DB0933D7 1E8C94E0 4A25619D CEE3D226 1AD2EE6B
		F12FFA06 D98A0864 D8760273 3EC86A64 521F2B18 177B200C
		BBE11757 7A615D6C 770988C0 BAD946E2 08E24FA0 74E5AB31
		43DB5BFC E0FD108E 4B82D120 A93AD2CA FFFFFFFF FFFFFFFF`

const vgroups = 6

var vnames = []string{"P-256", "P-384", "secp256k1", "ristretto255", "mod p", "mod p, 257 bits"}

func vgroup(i int) Group {
	switch i {
	case 0:
		return P256()
	case 1:
		return P384()
	case 2:
		return SecP256k1()
	case 3:
		return Ristretto255()
	}
	if i == 5 {
		// the order is one byte shorter than the modulus
		return NewModPGroup("p257", "1ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff1b97", "4")
	}
	return NewModPGroup("RFC3526ModPGroup3072", vModP, "2")
}

var vone = big.NewInt(1)

func vscalar(name string, g Group) *big.Int {
	return rt.Big(name, new(big.Int), new(big.Int).Sub(g.N(), vone))
}

// vany is a scalar of any sign and more bits than the order.
func vany(name string, g Group) *big.Int {
	lim := new(big.Int).Lsh(g.N(), 420)
	return rt.Big(name, new(big.Int).Neg(lim), lim)
}

func velem(name string, g Group) Element { return g.Element().BaseScale(vscalar(name, g)) }

// vreceiver is a receiver of a decoding with some previous contents.
func vreceiver(g Group) Element {
	switch rt.Choice("receiver", 4) {
	case 0:
		return g.Element()
	case 1:
		return g.Generator()
	case 2:
		return g.Identity()
	}
	return g.Element().BaseScale(vscalar("previous", g))
}
