package main

import (
	rt "github.com/takakv/msc-poc/verifrt"
)

// The election parameters of every curve are consistent.
func verif_C21_election() {
	rt.Bound("every curve")
	ec := vcurve(rt.Choice("curve", 4))
	pp, err := setup(ec)
	rt.Assert("election set-up succeeds", err == nil)
	if err != nil {
		return
	}
	rt.Assert("the candidate range is the one of the vote proof", pp.candidateMin == pp.RPParams.RangeLo && pp.candidateMax == pp.RPParams.RangeHi && pp.candidateMin < pp.candidateMax)
	rt.Assert("the candidate range fits the secret length", uint64(pp.candidateMax) < uint64(1)<<pp.RPParams.Bx)
	rt.Assert("the candidate range fits the range proofs", int64(pp.candidateMax-pp.candidateMin) < int64(1)<<uint(pp.BPParams.N))
	bits := ec.N().BitLen()
	rt.Assert("the lengths add up", pp.RPParams.Bb >= 1 && int(pp.RPParams.Bx)+int(pp.RPParams.Bc)+pp.RPParams.Bb < bits && int(pp.RPParams.Bg) == bits)
	rt.Assert("both curve descriptions agree", pp.ECGroupParams.N.Cmp(ec.N()) == 0 && pp.ECGroupParams.F.Cmp(ec.P()) == 0 && pp.RPParams.GEC.N.Cmp(ec.N()) == 0 &&
		pp.RPParams.GEC.F.Cmp(ec.P()) == 0 && pp.BPParams.GP.N().Cmp(ec.N()) == 0 && pp.ECGroupParams.I.N().Cmp(ec.N()) == 0)
	rt.Assert("one curve generator", pp.ECGroupParams.G.IsEqual(ec.Generator()) && pp.RPParams.GEC.G.IsEqual(ec.Generator()) && pp.BPParams.G.IsEqual(ec.Generator()))
	rt.Assert("one second curve generator", pp.ECGroupParams.H.IsEqual(pp.BPParams.H) && pp.RPParams.GEC.H.IsEqual(pp.BPParams.H))
	rt.Assert("the second generator is neither the first nor the identity", !pp.BPParams.H.IsEqual(ec.Generator()) && !pp.BPParams.H.IsEqual(ec.Identity()))
	ff := pp.FFGroupParams.I
	rt.Assert("both descriptions of the ElGamal group agree", pp.FFGroupParams.N.Cmp(ff.N()) == 0 && pp.FFGroupParams.F.Cmp(ff.P()) == 0 &&
		pp.RPParams.GFF.N.Cmp(ff.N()) == 0 && pp.RPParams.GFF.F.Cmp(ff.P()) == 0 && pp.RPParams.GFF.G.IsEqual(pp.FFGroupParams.G) && pp.FFGroupParams.G.IsEqual(ff.Generator()))
	rt.Assert("the vote proof uses the election key", pp.EGPK.IsEqual(pp.RPParams.GFF.H) && pp.EGPK.IsEqual(pp.FFGroupParams.H) && !pp.EGPK.IsEqual(ff.Identity()))
	rt.Assert("the ElGamal group is large enough for the nonce", pp.FFGroupParams.N.BitLen() > int(pp.RPParams.Bx)+int(pp.RPParams.Bc)+pp.RPParams.Bb)
	rt.Reach("done")
}
