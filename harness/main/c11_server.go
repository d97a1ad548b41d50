package main

import (
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	rt "github.com/takakv/msc-poc/verifrt"
	"github.com/takakv/msc-poc/voteproof"
)

// A ballot is accepted exactly when the choice is a candidate number and the
// two range proofs are about its distances to the bounds.
func verif_C11_relation() {
	rt.Bound("P-256, n=4, candidates 101..110, choices 101..110, any in-range committed values")
	rt.LoopBound(1)
	pp := vsmall(0, 4, 101, 110)
	choice := rt.Int("choice", 101, 110)
	v1, v2 := rt.Big("v1", new(big.Int), big.NewInt(15)), rt.Big("v2", new(big.Int), big.NewInt(15))
	bd := vballot(pp, pp.RPParams, choice, v1, v2)
	ok, _ := verifyVote(bd, pp.RPParams)
	want := v1.Cmp(big.NewInt(int64(choice-101))) == 0 && v2.Cmp(big.NewInt(int64(110-choice))) == 0
	rt.Assert("accepted exactly when the committed values are the distances to the bounds", ok == want)
	rt.Reach("done")
}

// A choice outside the candidate range is rejected.
func verif_C11_range() {
	rt.Bound("P-256, n=2, candidates 101..103, choices 97..107")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 103)
	choice := 97 + rt.Choice("choice", 11)
	bd := vballot(pp, pp.RPParams, choice, big.NewInt(int64(choice-101)), big.NewInt(int64(103-choice)))
	ok, _ := verifyVote(bd, pp.RPParams)
	rt.Assert("accepted exactly when the choice is a candidate number", ok == (choice >= 101 && choice <= 103))
	rt.Reach("done")
}

// Parameters in the ballot's vote proof differ from the server's.
func verif_C11_embedded() {
	rt.Bound("P-256, n=2: one embedded parameter of the vote proof differs from the server's")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 103)
	ff, ec := pp.FFGroupParams.I, pp.ECGroupParams.I
	q := pp.RPParams
	what := rt.Choice("what", 7)
	choice := 102
	v1, v2 := int64(1), int64(1)
	switch what {
	case 0:
		q.GFF.H = ff.Element().Add(q.GFF.H, ff.Element().BaseScale(vdelta("d", ff.N())))
	case 1:
		q.GEC.H = ec.Element().BaseScale(vdelta("d", ec.N()))
	case 2:
		q.Bc = 8
		q.Bb += 216
	case 3:
		q.Bb += 40
	case 4:
		choice = 100
		q.RangeLo = 99
	case 5:
		choice = 105
		v1, v2 = 1, 1
		q.RangeLo, q.RangeHi = 104, 106
	case 6:
		q.GFF.N = new(big.Int).Add(q.GFF.N, vone)
		q.GEC.N = new(big.Int).Sub(q.GEC.N, vone)
	}
	bd := vballot(pp, q, choice, big.NewInt(v1), big.NewInt(v2))
	// Further values that nothing should depend on.
	q.Bg = uint16(rt.Int("Bg", 0, 65535))
	q.GFF.F = rt.Big("F1", new(big.Int), vpow2(400))
	q.GEC.F = rt.Big("F2", new(big.Int), vpow2(400))
	bd.VoteProof.Params = q
	ok, _ := verifyVote(bd, pp.RPParams)
	bd.VoteProof.Params = pp.RPParams
	ok2, _ := verifyVote(bd, pp.RPParams)
	rt.Assert("embedded parameters do not get a ballot accepted", !ok || ok2)
	switch what {
	case 0, 1, 2, 4, 5:
		rt.Assert("ballot made with other parameters is rejected", !ok)
	case 3:
		hi := vpow2(16 + 224 + pp.RPParams.Bb)
		rt.Assert("response outside the server's interval is rejected", !ok || bd.VoteProof.Z.Cmp(hi) < 0)
	}
	rt.Reach("done")
}

// The ballot claims other range bounds than the published ones.
func verif_C11_bounds() {
	rt.Bound("P-256, n=2, candidates 101..103: any choice in 90..120, committed values in [0,3] and claimed bounds below 2^16")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 103)
	choice := rt.Int("choice", 90, 120)
	v1, v2 := rt.Big("v1", new(big.Int), big.NewInt(3)), rt.Big("v2", new(big.Int), big.NewInt(3))
	q := pp.RPParams
	q.RangeLo = uint16(rt.Int("lo", 0, 65535))
	q.RangeHi = uint16(rt.Int("hi", 0, 65535))
	bd := vballot(pp, q, choice, v1, v2)
	bd.VoteProof.Params = q
	ok, _ := verifyVote(bd, pp.RPParams)
	want := v1.Cmp(big.NewInt(int64(choice-101))) == 0 && v2.Cmp(big.NewInt(int64(103-choice))) == 0
	rt.Assert("accepted exactly when the committed values are the distances to the published bounds", ok == want)
	rt.Reach("done")
}

// Ballots in JSON: the parameters in the document are the voter's.
func verif_C11_json() {
	rt.Bound("P-256, n=2: generators of the inner-product part and numeric parameters of the document replaced")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 103)
	ec := pp.ECGroupParams.I
	// the prover's own generators for the range proofs
	evil := pp
	h := ec.Element().BaseScale(vdelta("h", ec.N()))
	evil.BPParams.H = h
	evil.RPParams.GEC.H = h
	choice := 102
	bd := vballot(evil, evil.RPParams, choice, big.NewInt(1), big.NewInt(1))
	bd.VoteProof.Params.Bx = uint8(rt.Choice("bx", 2)) * 16
	doc, err := vjson(bd)
	rt.Assert("ballot encodes", err == nil)
	got, err := BallotDataUnmarshalJSON(doc, pp)
	if err != nil {
		rt.Reach("refused")
		return
	}
	ok, _ := verifyVote(got, pp.RPParams)
	rt.Assert("ballot made for other generators is rejected", !ok)
	rt.Reach("done")
}

// Any published bounds, not only the usual ones.
func verif_C11_anybounds() {
	rt.Bound("P-256, n=4: any published bounds in 0..65535, any choice, any in-range committed values")
	rt.LoopBound(1)
	pp := vsmall(0, 4, 101, 110)
	pp.candidateMin = uint16(rt.Int("lo", 0, 65535))
	pp.candidateMax = uint16(rt.Int("hi", 0, 65535))
	pp.RPParams.RangeLo, pp.RPParams.RangeHi = pp.candidateMin, pp.candidateMax
	choice := rt.Int("choice", 0, 65535)
	v1, v2 := rt.Big("v1", new(big.Int), big.NewInt(15)), rt.Big("v2", new(big.Int), big.NewInt(15))
	bd := vballot(pp, pp.RPParams, choice, v1, v2)
	ok, _ := verifyVote(bd, pp.RPParams)
	lo, hi := int(pp.candidateMin), int(pp.candidateMax)
	want := v1.Cmp(big.NewInt(int64(choice-lo))) == 0 && v2.Cmp(big.NewInt(int64(hi-choice))) == 0
	rt.Assert("accepted exactly when the committed values are the distances to the bounds", ok == want)
	if ok {
		rt.Assert("an accepted choice lies within the bounds", lo <= choice && choice <= hi)
	}
	rt.Reach("done")
}

// Any claimed distances, in or out of the range of the range proofs, for any
// encrypted integer, also at the ends of the candidate numbers.
func verif_C11_anychoice() {
	rt.Bound("P-256, n=2: one to four candidates, from 0, 101, any number, or up to 65535; encrypted integer and values up to 40 out of the bounds")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 104)
	w := uint16(rt.Choice("width", 4))
	pp.candidateMin = []uint16{0, 65535 - w, 101}[rt.Choice("bounds", 3)]
	if pp.candidateMin == 0 && rt.Choice("any", 2) == 1 {
		pp.candidateMin = uint16(rt.Int("lo", 0, 65535-int(w)))
	}
	pp.candidateMax = pp.candidateMin + w
	lo, hi := int(pp.candidateMin), int(pp.candidateMax)
	pp.RPParams.RangeLo, pp.RPParams.RangeHi = pp.candidateMin, pp.candidateMax
	choice := lo + rt.Int("off", -40, 40)
	bd := vballotBig(pp, big.NewInt(int64(choice)), big.NewInt(int64(choice-lo)), big.NewInt(int64(hi-choice)))
	ok, _ := verifyVote(bd, pp.RPParams)
	rt.Assert("accepted exactly when the choice lies within the bounds", ok == (lo <= choice && choice <= hi))
	rt.Reach("done")
}

// vballotBig is like vballot for any encrypted integer.
func vballotBig(pp PublicParameters, choice, v1, v2 *big.Int) BallotData {
	ff := pp.FFGroupParams.I
	rp := rt.Big("rp", vone, new(big.Int).Sub(ff.N(), vone))
	ct := ElGamalCiphertext{U: ff.Element().BaseScale(rp), V: ff.Element().Add(ff.Element().BaseScale(choice), ff.Element().Scale(pp.EGPK, rp))}
	b1, r1, _ := bulletproofs.Prove(v1, pp.BPParams)
	b2, r2, _ := bulletproofs.Prove(v2, pp.BPParams)
	p := voteproof.Prove(choice, rp, r1, new(big.Int).Sub(pp.ECGroupParams.N, r2), pp.RPParams)
	return BallotData{Ballot: ct, BpLower: b1, BpUpper: b2, VoteProof: p}
}

// Parts of the honest ballots of two voters, or of one voter, do not combine.
func verif_C11_parts() {
	rt.Bound("P-256, n=2, candidates 101..104, any choices: each proper combination of the four parts of two ballots; the two range proofs of a ballot swapped")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 104)
	c1, c2 := 101+rt.Choice("c1", 4), 101+rt.Choice("c2", 4)
	a := vballot(pp, pp.RPParams, c1, big.NewInt(int64(c1-101)), big.NewInt(int64(104-c1)))
	b := vballot(pp, pp.RPParams, c2, big.NewInt(int64(c2-101)), big.NewInt(int64(104-c2)))
	mix := 1 + rt.Choice("mix", 15)
	if mix == 15 {
		a.BpLower, a.BpUpper = a.BpUpper, a.BpLower
	} else {
		if mix&1 != 0 {
			a.Ballot = b.Ballot
		}
		if mix&2 != 0 {
			a.BpLower = b.BpLower
		}
		if mix&4 != 0 {
			a.BpUpper = b.BpUpper
		}
		if mix&8 != 0 {
			a.VoteProof = b.VoteProof
		}
	}
	ok, _ := verifyVote(a, pp.RPParams)
	rt.Assert("a combination of parts of different ballots is rejected", !ok)
	rt.Reach("done")
}
