package main

import (
	"encoding/json"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	rt "github.com/takakv/msc-poc/verifrt"
)

func c18range(p, q bulletproofs.BulletProof) bool {
	return p.V.IsEqual(q.V) && p.A.IsEqual(q.A) && p.S.IsEqual(q.S) && p.T1.IsEqual(q.T1) && p.T2.IsEqual(q.T2) &&
		p.Taux.Cmp(q.Taux) == 0 && p.Mu.Cmp(q.Mu) == 0 && p.Tprime.Cmp(q.Tprime) == 0 && p.InnerProductProof.P.IsEqual(q.InnerProductProof.P)
}

func c18equal(b, d BallotData) {
	rt.Assert("decoded ciphertext is equal", b.Ballot.U.IsEqual(d.Ballot.U) && b.Ballot.V.IsEqual(d.Ballot.V))
	rt.Assert("decoded lower-bound proof is equal", c18range(b.BpLower, d.BpLower))
	rt.Assert("decoded upper-bound proof is equal", c18range(b.BpUpper, d.BpUpper))
	p, q := b.VoteProof, d.VoteProof
	rt.Assert("decoded vote proof is equal", p.W.IsEqual(q.W) && p.Kp.IsEqual(q.Kp) && p.Kq1.IsEqual(q.Kq1) && p.Kq2.IsEqual(q.Kq2) &&
		p.Challenge.Cmp(q.Challenge) == 0 && p.Z.Cmp(q.Z) == 0 && p.Sp.Cmp(q.Sp) == 0 && p.Sq1.Cmp(q.Sq1) == 0 && p.Sq2.Cmp(q.Sq2) == 0)
}

// An honest ballot survives the way to the server.
func verif_C18_ballot() {
	rt.Bound("every curve, n=2, candidates 101..103, every choice, one round of the abort loop")
	rt.LoopBound(1)
	pp := vsmall(rt.Choice("curve", 4), 2, 101, 103)
	choice := rt.Int("choice", 101, 103)
	bd := vballot(pp, pp.RPParams, choice, big.NewInt(int64(choice-101)), big.NewInt(int64(103-choice)))
	doc, err := json.Marshal(bd)
	rt.Assert("encoding succeeds", err == nil)
	got, err := BallotDataUnmarshalJSON(doc, pp)
	rt.Assert("decoding succeeds", err == nil)
	c18equal(bd, got)
	ok, _ := verifyVote(got, pp.RPParams)
	rt.Assert("the decoded ballot is accepted", ok)
	rt.Reach("done")
}

// A ballot with any two committed values: same verdict before and after.
func verif_C18_verdict() {
	rt.Bound("P-256, n=2, candidates 101..103, every choice, any in-range committed values")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 103)
	choice := rt.Int("choice", 101, 103)
	v1, v2 := rt.Big("v1", new(big.Int), big.NewInt(3)), rt.Big("v2", new(big.Int), big.NewInt(3))
	bd := vballot(pp, pp.RPParams, choice, v1, v2)
	doc, err := json.Marshal(bd)
	rt.Assert("encoding succeeds", err == nil)
	got, err := BallotDataUnmarshalJSON(doc, pp)
	rt.Assert("decoding succeeds", err == nil)
	ok, _ := verifyVote(bd, pp.RPParams)
	ok2, _ := verifyVote(got, pp.RPParams)
	rt.Assert("the verdict on the decoded ballot is the verdict on the original", ok == ok2)
	rt.Reach("done")
}

// Ciphertexts alone.
func verif_C18_ciphertext() {
	rt.Bound("all pairs of elements of the mod p group")
	pp, err := setup(vcurve(0))
	rt.Assert("election set-up succeeds", err == nil)
	ff := pp.FFGroupParams.I
	ct := ElGamalCiphertext{U: ff.Element().BaseScale(vscalar("u", ff.N())), V: ff.Element().BaseScale(vscalar("v", ff.N()))}
	doc, err := json.Marshal(ct)
	rt.Assert("encoding succeeds", err == nil)
	got, err := BallotUnmarshalJSON(doc, ff)
	rt.Assert("decoding succeeds", err == nil)
	rt.Assert("decoded ciphertext is equal", got.U.IsEqual(ct.U) && got.V.IsEqual(ct.V))
	rt.Reach("done")
}
