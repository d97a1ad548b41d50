package main

import (
	"encoding/json"

	rt "github.com/takakv/msc-poc/verifrt"
)

// Voters and servers that work at the same time with the same parameters.
func verif_C27_ballots() {
	rt.Bound("P-256 and ristretto255, n = 2, one round of the abort loop: casting, verifying, encoding and decoding with shared parameters and ballot")
	rt.LoopBound(1)
	pp := vsmall([]int{0, 3}[rt.Choice("curve", 2)], 2, 101, 104)
	bd, _ := castVote(pp)
	switch rt.Choice("what", 4) {
	case 0:
		rt.Shared("concurrent casting shares no state", func() {
			_, _ = castVote(pp)
		}, &pp)
	case 1:
		rt.Shared("concurrent verification shares no state", func() {
			_, _ = verifyVote(bd, pp.RPParams)
		}, &pp, &bd)
	case 2:
		msg, err := json.Marshal(bd)
		rt.Assert("encoding succeeds", err == nil)
		rt.Shared("concurrent encoding and decoding of ballots share no state", func() {
			_, _ = json.Marshal(bd)
			var x BallotData
			_ = json.Unmarshal(msg, &x)
		}, &pp, &bd, msg)
	case 3:
		rt.Shared("concurrent set-up and encryption share no state", func() {
			_, _ = setup(vcurve(0))
			_, _ = encryptVote(101, pp.EGPK, pp.FFGroupParams.I)
		}, &pp)
	}
	rt.Reach("done")
}
