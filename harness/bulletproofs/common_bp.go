package bulletproofs

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// vgroups are the curves the proofs are used with.
func vgroup(i int) group.Group {
	switch i {
	case 0:
		return group.P256()
	case 1:
		return group.P384()
	case 2:
		return group.SecP256k1()
	}
	return group.Ristretto255()
}

// vcurve picks a curve: all of them in thorough runs, else P-256.
func vcurve() group.Group {
	return vgroup(rt.Choice("curve", 4))
}

func vpow2(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func vsetup(n int64, g group.Group) BulletProofSetupParams {
	p, err := Setup(int64(1)<<uint(n), g)
	rt.Assert("set-up succeeds", err == nil)
	return p
}
