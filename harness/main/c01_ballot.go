package main

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

func c01(curve int) {
	rt.LoopBound(1)
	pp, err := setup(vcurve(curve))
	rt.Assert("election set-up succeeds", err == nil)
	bd, _ := castVote(pp)
	ok, times := verifyVote(bd, pp.RPParams)
	rt.Assert("honest ballot is accepted", ok)
	rt.Assert("verification times are reported", len(times) == 2)
	rt.Reach("accepted")
}

func verif_C01_p256() { rt.Bound("P-256, n=16, 1 round of the abort loop"); c01(0) }
func verif_C01_p384() { rt.Bound("P-384, n=16, 1 round of the abort loop"); c01(1) }
func verif_C01_r255() { rt.Bound("ristretto255, n=16, 1 round of the abort loop"); c01(3) }

// The encrypted choice lies in the candidate range: the key of the set-up is 13.
func verif_C01_choice() {
	rt.LoopBound(1)
	pp, err := setup(vcurve(0))
	rt.Assert("election set-up succeeds", err == nil)
	sk := rt.Big("sk", vone, new(big.Int).Sub(pp.FFGroupParams.N, vone))
	ff := pp.FFGroupParams.I
	pp.EGPK = ff.Element().BaseScale(sk)
	pp.FFGroupParams.H = pp.EGPK
	pp.RPParams.GFF.H = pp.EGPK
	bd, _ := castVote(pp)
	m := ff.Element().Subtract(bd.Ballot.V, ff.Element().Scale(bd.Ballot.U, sk))
	in := false
	for i := pp.candidateMin; i <= pp.candidateMax; i++ {
		if m.IsEqual(ff.Element().BaseScale(big.NewInt(int64(i)))) {
			in = true
		}
	}
	rt.Assert("encrypted choice is a candidate number", in)
	ok, _ := verifyVote(bd, pp.RPParams)
	rt.Assert("honest ballot is accepted", ok)
	rt.Reach("accepted")
}

func verif_C01_k256() {
	rt.Bound("secp256k1, n=16, candidates 101..103 and 1999..2000, 1 round of the abort loop")
	rt.LoopBound(1)
	pp, err := setup(vcurve(2))
	rt.Assert("election set-up succeeds", err == nil)
	if rt.Choice("end", 2) == 0 {
		pp.candidateMax = 103
		pp.RPParams.RangeHi = 103
	} else {
		pp.candidateMin = 1999
		pp.RPParams.RangeLo = 1999
	}
	bd, _ := castVote(pp)
	ok, _ := verifyVote(bd, pp.RPParams)
	rt.Assert("honest ballot is accepted", ok)
	rt.Reach("accepted")
}

// Other candidate ranges than that of the set-up, wide ones too.
func verif_C01_ranges() {
	rt.Bound("P-256, n=16, candidates 0..65535, 101..60000, 32767..32769, 65535 or 0 alone; 1 round of the abort loop")
	rt.LoopBound(1)
	pp, err := setup(vcurve(0))
	rt.Assert("election set-up succeeds", err == nil)
	r := [][2]uint16{{0, 65535}, {101, 60000}, {32767, 32769}, {65535, 65535}, {0, 0}}[rt.Choice("range", 5)]
	pp.candidateMin, pp.RPParams.RangeLo = r[0], r[0]
	pp.candidateMax, pp.RPParams.RangeHi = r[1], r[1]
	bd, _ := castVote(pp)
	ok, _ := verifyVote(bd, pp.RPParams)
	rt.Assert("honest ballot is accepted", ok)
	rt.Reach("accepted")
}

// Any candidate range.
func verif_C01_anyrange() {
	rt.Bound("P-256, n=16, any candidate range within 0..65535; 1 round of the abort loop")
	rt.LoopBound(1)
	pp, err := setup(vcurve(0))
	rt.Assert("election set-up succeeds", err == nil)
	pp.candidateMin = uint16(rt.Int("lo", 0, 65535))
	pp.candidateMax = uint16(rt.Int("hi", 0, 65535))
	rt.Assume(pp.candidateMin <= pp.candidateMax)
	pp.RPParams.RangeLo, pp.RPParams.RangeHi = pp.candidateMin, pp.candidateMax
	bd, _ := castVote(pp)
	ok, _ := verifyVote(bd, pp.RPParams)
	rt.Assert("honest ballot is accepted", ok)
	rt.Reach("accepted")
}
