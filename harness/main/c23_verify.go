package main

import (
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// One ballot's verification does not influence another's.
func verif_C23_ballots() {
	rt.Bound("every curve, n=2, candidates 101..103: an honest ballot verified before and after another one, which is honest or has one component changed")
	rt.LoopBound(1)
	pp := vsmall(rt.Choice("curve", 4), 2, 101, 103)
	ec, ff := pp.ECGroupParams.I, pp.FFGroupParams.I
	a := vballot(pp, pp.RPParams, 101, big.NewInt(0), big.NewInt(2))
	b := vballot(pp, pp.RPParams, 102, big.NewInt(1), big.NewInt(1))
	what := rt.Choice("place", 8)
	switch what {
	case 0:
		b.Ballot.U = ff.Element().Add(b.Ballot.U, ff.Element().BaseScale(vdelta("d", ff.N())))
	case 1:
		b.Ballot.V = ff.Element().Add(b.Ballot.V, ff.Element().BaseScale(vdelta("d", ff.N())))
	case 2:
		b.BpLower.V = ec.Element().Add(b.BpLower.V, ec.Element().BaseScale(vdelta("d", ec.N())))
	case 3:
		b.BpUpper.V = ec.Element().Add(b.BpUpper.V, ec.Element().BaseScale(vdelta("d", ec.N())))
	case 4:
		b.BpUpper.InnerProductProof.A = new(big.Int).Add(b.BpUpper.InnerProductProof.A, vdelta("d", ec.N()))
	case 5:
		b.VoteProof.Sp = new(big.Int).Add(b.VoteProof.Sp, vdelta("d", ff.N()))
	case 6:
		b.BpLower, b.BpUpper = a.BpLower, a.BpUpper
	}
	before := rt.Snap(a, b, pp)
	ok1, _ := verifyVote(a, pp.RPParams)
	ok2, _ := verifyVote(b, pp.RPParams)
	ok3, _ := verifyVote(b, pp.RPParams)
	rt.Assert("verification leaves both ballots and the parameters as they were", rt.Same(before, rt.Snap(a, b, pp)))
	ok4, _ := verifyVote(a, pp.RPParams)
	rt.Assert("the honest ballot is accepted before and after", ok1 && ok4)
	rt.Assert("the other ballot gets one verdict", ok2 == ok3 && ok2 == (what == 7))
	rt.Reach("done")
}

// Casting leaves the parameters as they were.
func verif_C23_cast() {
	rt.Bound("P-256, P-384 and ristretto255, full-size election parameters, one round of the abort loop")
	rt.LoopBound(1)
	pp, err := setup(vcurve([]int{0, 1, 3}[rt.Choice("curve", 3)]))
	rt.Assert("election set-up succeeds", err == nil)
	before := rt.Snap(pp)
	_, _ = castVote(pp)
	rt.Assert("casting leaves the parameters as they were", rt.Same(before, rt.Snap(pp)))
	rt.Reach("done")
}

// A copy of an accepted ballot with one component changed is still rejected.
func verif_C23_copies() {
	rt.Bound("P-256, n=2, candidates 101..103: a ballot verified right after an accepted one of which it differs in one component")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 103)
	ec, ff := pp.ECGroupParams.I, pp.FFGroupParams.I
	a := vballot(pp, pp.RPParams, 101, big.NewInt(0), big.NewInt(2))
	b := a
	switch rt.Choice("place", 8) {
	case 0:
		b.Ballot.U = ff.Element().Add(b.Ballot.U, ff.Element().BaseScale(vdelta("d", ff.N())))
	case 1:
		b.Ballot.V = ff.Element().Add(b.Ballot.V, ff.Element().BaseScale(vdelta("d", ff.N())))
	case 2:
		b.BpLower.V = ec.Element().Add(b.BpLower.V, ec.Element().BaseScale(vdelta("d", ec.N())))
	case 3:
		b.BpUpper.T1 = ec.Element().Add(b.BpUpper.T1, ec.Element().BaseScale(vdelta("d", ec.N())))
	case 4:
		b.BpUpper.InnerProductProof.A = new(big.Int).Add(b.BpUpper.InnerProductProof.A, vdelta("d", ec.N()))
	case 5:
		b.BpLower.Taux = new(big.Int).Add(b.BpLower.Taux, vdelta("d", ec.N()))
	case 6:
		b.VoteProof.Sp = new(big.Int).Add(b.VoteProof.Sp, vdelta("d", ff.N()))
	case 7:
		b.BpLower, b.BpUpper = a.BpUpper, a.BpLower
	}
	ok1, _ := verifyVote(a, pp.RPParams)
	ok2, _ := verifyVote(b, pp.RPParams)
	ok3, _ := verifyVote(a, pp.RPParams)
	rt.Assert("the honest ballot is accepted before and after", ok1 && ok3)
	rt.Assert("the changed copy is rejected", !ok2)
	rt.Reach("done")
}
