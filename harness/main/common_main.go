package main

import (
	"encoding/json"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
	"github.com/takakv/msc-poc/voteproof"
)

var vone = big.NewInt(1)

func vcurve(i int) group.Group {
	switch i {
	case 0:
		return group.P256()
	case 1:
		return group.P384()
	case 2:
		return group.SecP256k1()
	}
	return group.Ristretto255()
}

func vpow2(n int) *big.Int { return new(big.Int).Lsh(vone, uint(n)) }

func vscalar(name string, n *big.Int) *big.Int {
	return rt.Big(name, new(big.Int), new(big.Int).Sub(n, vone))
}

func vdelta(name string, n *big.Int) *big.Int {
	return rt.Big(name, vone, new(big.Int).Sub(n, vone))
}

func vjson(v interface{}) ([]byte, error) { return json.Marshal(v) }

// vsmall are election parameters with an n-bit range proof and the given bounds.
func vsmall(curve int, n uint, lo, hi uint16) PublicParameters {
	pp, err := setup(vcurve(curve))
	rt.Assert("election set-up succeeds", err == nil)
	bp, err := bulletproofs.Setup(int64(1)<<n, vcurve(curve))
	rt.Assert("range-proof set-up succeeds", err == nil)
	pp.BPParams = bp
	pp.candidateMin, pp.candidateMax = lo, hi
	pp.RPParams.RangeLo, pp.RPParams.RangeHi = lo, hi
	return pp
}

// vballot is a ballot for choice whose range proofs are made for v1 and v2 and
// whose vote proof is made with the parameters vp.
func vballot(pp PublicParameters, vp voteproof.ProofParams, choice int, v1, v2 *big.Int) BallotData {
	ct, rp := encryptVote(uint16(choice), pp.EGPK, pp.FFGroupParams.I)
	b1, r1, _ := bulletproofs.Prove(v1, pp.BPParams)
	b2, r2, _ := bulletproofs.Prove(v2, pp.BPParams)
	r2 = new(big.Int).Sub(pp.ECGroupParams.N, r2)
	p := voteproof.Prove(big.NewInt(int64(choice)), rp, r1, r2, vp)
	return BallotData{Ballot: ct, BpLower: b1, BpUpper: b2, VoteProof: p}
}
