package main

import (
	"encoding/json"
	"math/big"

	"github.com/takakv/msc-poc/bulletproofs"
	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// c19doc is an honest ballot and its JSON document.
func c19doc(pp PublicParameters) (BallotData, []byte) {
	bd := vballot(pp, pp.RPParams, 102, big.NewInt(1), big.NewInt(1))
	doc, err := json.Marshal(bd)
	rt.Assert("encoding succeeds", err == nil)
	return bd, doc
}

// c19server is what the server does with a submitted document.
func c19server(doc []byte, pp PublicParameters) (bd BallotData, decoded, accepted bool) {
	got, err := BallotDataUnmarshalJSON(doc, pp)
	if err != nil {
		return got, false, false
	}
	ok, _ := verifyVote(got, pp.RPParams)
	return got, true, ok
}

func c19els(a, b []group.Element) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].IsEqual(b[i]) {
			return false
		}
	}
	return true
}

func c19cong(a, b, n *big.Int) bool {
	d := new(big.Int).Sub(a, b)
	return d.Mod(d, n).Sign() == 0
}

func c19range(p, q bulletproofs.BulletProof, n *big.Int) bool {
	x, y := p.InnerProductProof, q.InnerProductProof
	return p.V.IsEqual(q.V) && p.A.IsEqual(q.A) && p.S.IsEqual(q.S) && p.T1.IsEqual(q.T1) && p.T2.IsEqual(q.T2) &&
		c19cong(p.Taux, q.Taux, n) && c19cong(p.Mu, q.Mu, n) && c19cong(p.Tprime, q.Tprime, n) &&
		c19cong(x.A, y.A, n) && c19cong(x.B, y.B, n) && c19els(x.L, y.L) && c19els(x.R, y.R)
}

func c19same(b, d BallotData, pp PublicParameters) bool {
	ec, ff := pp.ECGroupParams.I.N(), pp.FFGroupParams.I.N()
	p, q := b.VoteProof, d.VoteProof
	return b.Ballot.U.IsEqual(d.Ballot.U) && b.Ballot.V.IsEqual(d.Ballot.V) &&
		c19range(b.BpLower, d.BpLower, ec) && c19range(b.BpUpper, d.BpUpper, ec) &&
		p.W.IsEqual(q.W) && p.Kp.IsEqual(q.Kp) && p.Kq1.IsEqual(q.Kq1) && p.Kq2.IsEqual(q.Kq2) &&
		p.Challenge.Cmp(q.Challenge) == 0 && p.Z.Cmp(q.Z) == 0 &&
		c19cong(p.Sp, q.Sp, ff) && c19cong(p.Sq1, q.Sq1, ec) && c19cong(p.Sq2, q.Sq2, ec)
}

func c19check(pp PublicParameters, prefix, second string) {
	bd, doc := c19doc(pp)
	m := rt.JMutate("m", doc, prefix)
	var got BallotData
	var dec, ok bool
	if second != "" && rt.Thorough() && rt.Bool("two") {
		m = rt.JMutate("m2", m, second)
	}
	panics := rt.Panics(func() { got, dec, ok = c19server(m, pp) })
	rt.Assert("the server does not panic", !panics)
	if panics {
		return
	}
	if ok {
		rt.Assert("an accepted document has the components of the ballot", dec && c19same(bd, got, pp))
	}
	rt.Reach("done")
}

const c19bound = "one node of the document of a ballot (n=2) replaced by null, a string, any integer in ±2^3200, a boolean, an empty list or object, removed, or a list shortened or lengthened"

func verif_C19_ballot() {
	rt.Bound("P-256: " + c19bound + " (ciphertext)")
	rt.LoopBound(1)
	c19check(vsmall(0, 2, 101, 103), ".ballot", ".ballot")
}

func verif_C19_lower() {
	rt.Bound("every curve: " + c19bound + " (lower-bound proof)")
	rt.LoopBound(1)
	c19check(vsmall(rt.Choice("curve", 4), 2, 101, 103), ".lbProof", "")
}

func verif_C19_upper() {
	rt.Bound("P-256: " + c19bound + " (upper-bound proof)")
	rt.LoopBound(1)
	c19check(vsmall(0, 2, 101, 103), ".ubProof", "")
}

func verif_C19_vote() {
	rt.Bound("every curve: " + c19bound + " (vote proof)")
	rt.LoopBound(1)
	c19check(vsmall(rt.Choice("curve", 4), 2, 101, 103), ".voteProof", "")
}

// Lists of the inner-product part with one mutation each (thorough: two).
func verif_C19_lists() {
	rt.Bound("P-256: " + c19bound + " (L and R lists; in thorough runs also two such changes)")
	rt.LoopBound(1)
	pre := []string{".lbProof.InnerProductProof.L", ".lbProof.InnerProductProof.R"}
	c19check(vsmall(0, 2, 101, 103), pre[rt.Choice("list", 2)], ".lbProof.InnerProductProof.R")
}
