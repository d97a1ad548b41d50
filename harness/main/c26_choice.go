package main

import (
	"fmt"
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// c26cast is the candidate number a cast ballot holds, as the set-up's key shows.
func c26cast(lo, hi uint16) (pp PublicParameters, is func(v int) bool) {
	rt.LoopBound(1)
	pp = vsmall(0, 2, lo, hi)
	ff := pp.FFGroupParams.I
	sk := rt.Big("sk", vone, new(big.Int).Sub(pp.FFGroupParams.N, vone))
	pp.EGPK = ff.Element().BaseScale(sk)
	pp.FFGroupParams.H = pp.EGPK
	pp.RPParams.GFF.H = pp.EGPK
	var bd BallotData
	rt.Assert("casting does not panic", !rt.Panics(func() { bd, _ = castVote(pp) }))
	m := ff.Element().Subtract(bd.Ballot.V, ff.Element().Scale(bd.Ballot.U, sk))
	return pp, func(v int) bool { return m.IsEqual(ff.Element().BaseScale(big.NewInt(int64(v)))) }
}

func verif_C26_all() {
	rt.Bound("P-256, n = 2, candidate ranges of 1 to 4 numbers from 0, 101 or up to 65535: each number")
	size := 1 + rt.Choice("size", 4)
	lo := []int{0, 101, 65536 - size}[rt.Choice("start", 3)]
	_, is := c26cast(uint16(lo), uint16(lo+size-1))
	in := false
	for v := lo; v < lo+size; v++ {
		in = in || is(v)
	}
	rt.Assert("the encrypted choice is a candidate", in)
	for v := lo; v < lo+size; v++ {
		rt.Exists(fmt.Sprintf("candidate %d of %d..%d can be voted for", v, lo, lo+size-1), is(v), 150)
	}
	rt.Reach("cast")
}

// Casting works for every candidate range.
func verif_C26_anyrange() {
	rt.Bound("P-256, n = 16, any candidate range within 0..65535")
	rt.LoopBound(1)
	pp := vsmall(0, 16, 101, 110)
	pp.candidateMin, pp.candidateMax = uint16(rt.Int("lo", 0, 65535)), uint16(rt.Int("hi", 0, 65535))
	rt.Assume(pp.candidateMin <= pp.candidateMax)
	pp.RPParams.RangeLo, pp.RPParams.RangeHi = pp.candidateMin, pp.candidateMax
	rt.Assert("casting does not panic", !rt.Panics(func() { castVote(pp) }))
	rt.Reach("cast")
}
