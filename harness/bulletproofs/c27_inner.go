package bulletproofs

import (
	"encoding/json"
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

func verif_C27_inner() {
	rt.Bound("P-256, vectors of length 2: inner-product argument made and verified with shared vectors and parameters")
	g := vgroup(0)
	hi := new(big.Int).Sub(g.N(), big.NewInt(1))
	a := []*big.Int{rt.Big("a0", new(big.Int), hi), rt.Big("a1", new(big.Int), hi)}
	b := []*big.Int{rt.Big("b0", new(big.Int), hi), big.NewInt(7)}
	ip := new(big.Int).Mul(a[0], b[0])
	ip.Add(ip, new(big.Int).Mul(a[1], b[1]))
	ip.Mod(ip, g.N())
	params, err := setupInnerProduct(nil, nil, 2, g)
	rt.Assert("set-up succeeds", err == nil)
	P := commitInnerProduct(params.Gg, params.Hh, a, b, g)
	pr, err := proveInnerProduct(a, b, P, ip, params)
	rt.Assert("prover succeeds", err == nil)
	if rt.Choice("what", 2) == 0 {
		rt.Shared("concurrent inner-product proofs share no state", func() {
			_, _ = proveInnerProduct(a, b, P, ip, params)
		}, &params, a, b, P, ip, g)
	} else {
		rt.Shared("concurrent inner-product verifications share no state", func() {
			_, _ = pr.Verify()
		}, &params, &pr, g)
	}
	rt.Reach("done")
}

func verif_C27_json() {
	rt.Bound("P-256, n = 2: encoding one shared proof and decoding one shared message")
	p := vsetup(2, vgroup(0))
	proof, _, err := Prove(big.NewInt(2), p)
	rt.Assert("prover succeeds", err == nil)
	msg, err := json.Marshal(proof)
	rt.Assert("encoding succeeds", err == nil)
	rt.Shared("concurrent encoding and decoding of proofs share no state", func() {
		_, _ = json.Marshal(proof)
		var q BulletProof
		_ = json.Unmarshal(msg, &q)
	}, &p, &proof, msg)
	rt.Reach("done")
}

func verif_C27_setup() {
	rt.Bound("every curve, n = 2: set-up of the parameters")
	g := vcurve()
	rt.Shared("concurrent set-ups share no state", func() {
		_, _ = Setup(4, g)
	}, g)
	rt.Reach("done")
}
