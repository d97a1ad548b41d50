package voteproof

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

const vModP = `FFFFFFFF FFFFFFFF C90FDAA2 2168C234 C4C6628B 80DC1CD1
		29024E08 8A67CC74 020BBEA6 3B139B22 514A0879 8E3404DD
		EF9519B3 CD3A431B 302B0A6D F25F1437 4FE1356D 6D51C245
		E485B576 625E7EC6 F44C42E9 A637ED6B 0BFF5CB6 F406B7ED
		EE386BFB 5A899FA5 AE9F2411 7C4B1FE6 49286651 ECE45B3D
		C2007CB8 A163BF05 98DA4836 1C55D39A 69163FA8 FD24CF5F
		83655D23 DCA3AD96 1C62F356 208552BB 9ED52907 7096966D
		670C354E 4ABC9804 F1746C08 CA18217C 32905E46 2E36CE3B
		E39E772C 180E8603 9B2783A2 EC07A28F B5C55DF0 6F4C52C9
		DE2BCBF6 95581718 3995497C EA956AE5 15D22618 98FA0510
		15728E5A 8AAAC42D AD33170D 04507A33 A85521AB DF1CBA64
		ECFB8504 58DBEF0A 8AEA7157 5D060C7D B3970F85 A6E1E4C7
		ABF5AE8C DB0933D7 1E8C94E0 4A25619D CEE3D226 1AD2EE6B
		F12FFA06 D98A0864 D8760273 3EC86A64 521F2B18 177B200C
		BBE11757 7A615D6C 770988C0 BAD946E2 08E24FA0 74E5AB31
		43DB5BFC E0FD108E 4B82D120 A93AD2CA FFFFFFFF FFFFFFFF`

func vcurve(i int) group.Group {
	switch i {
	case 0:
		return group.P256()
	case 1:
		return group.P384()
	case 2:
		return group.SecP256k1()
	}
	return group.Ristretto255()
}

var vone = big.NewInt(1)

func vpow2(n int) *big.Int { return new(big.Int).Lsh(vone, uint(n)) }

// vparams are parameters over the mod p group and the given curve, with a
// symbolic ElGamal key and a second curve generator of unknown logarithm.
func vparams(ec group.Group, bx uint8, bc uint16) ProofParams {
	ff := group.NewModPGroup("RFC3526ModPGroup3072", vModP, "2")
	sk := rt.Big("sk", vone, new(big.Int).Sub(ff.N(), vone))
	h, err := ec.Element().MapToGroup("h")
	rt.Assert("second generator", err == nil)
	var ap AlgebraicParameters
	ap.GFF = GroupParameters{G: ff.Generator(), H: ff.Element().BaseScale(sk), N: ff.N(), F: ff.P(), I: ff}
	ap.GEC = GroupParameters{G: ec.Generator(), H: h, N: ec.N(), F: ec.P(), I: ec}
	p, err := Setup(bx, bc, uint16(ec.N().BitLen()), 101, 2000, ap)
	rt.Assert("set-up succeeds", err == nil)
	return p
}

func vscalar(name string, n *big.Int) *big.Int {
	return rt.Big(name, new(big.Int), new(big.Int).Sub(n, vone))
}

// vdelta is any change of a scalar that is not 0 modulo n.
func vdelta(name string, n *big.Int) *big.Int {
	return rt.Big(name, vone, new(big.Int).Sub(n, vone))
}

// vcommit is the statement that secret, rp, rq1, rq2 belong to.
func vcommit(secret, rp, rq1, rq2 *big.Int, p ProofParams) VerCommitments {
	ff, ec := p.GFF.I, p.GEC.I
	ped := func(g group.Group, h group.Element, r *big.Int) group.Element {
		return g.Element().Add(g.Element().BaseScale(secret), g.Element().Scale(h, r))
	}
	return VerCommitments{
		Y:   ff.Element().BaseScale(rp),
		Xp:  ped(ff, p.GFF.H, rp),
		Xq1: ped(ec, p.GEC.H, rq1),
		Xq2: ped(ec, p.GEC.H, rq2),
	}
}
