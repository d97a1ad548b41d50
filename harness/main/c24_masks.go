package main

import (
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// The randomness of a ciphertext.
func verif_C24_ciphertext() {
	rt.Bound("every choice and public key, first or second encryption")
	pp, err := setup(vcurve(0))
	rt.Assert("election set-up succeeds", err == nil)
	ff := pp.FFGroupParams.I
	sk := vdelta("sk", ff.N())
	pk := ff.Element().BaseScale(sk)
	choice := uint16(rt.Int("choice", 0, 65535))
	if rt.Bool("later") {
		_, _ = encryptVote(choice, pk, ff)
	}
	from := len(rt.Draws())
	a, ra := encryptVote(choice, pk, ff)
	to := len(rt.Draws())
	rt.Assert("randomness is drawn", to > from)
	found := false
	for j := from; j < to; j++ {
		rt.Redraw(from, to, j)
		b, rb := encryptVote(choice, pk, ff)
		d := new(big.Int).Sub(rb, ra)
		if !b.U.IsEqual(a.U) && ff.Element().Subtract(b.U, a.U).IsEqual(ff.Element().BaseScale(d)) &&
			ff.Element().Subtract(b.V, a.V).IsEqual(ff.Element().Scale(pk, d)) {
			found = true
		}
	}
	rt.Assert("each ciphertext is blinded by randomness of its own", found)
	rt.Reach("done")
}

// Every ballot: the ciphertext and the three proofs have masks of their own.
func verif_C24_ballot() {
	rt.Bound("P-256, n=2, candidates 101..104, every choice of the voter, first or second ballot cast, one round of the abort loop")
	rt.LoopBound(1)
	pp := vsmall(0, 2, 101, 104)
	if rt.Bool("later") {
		_, _ = castVote(pp)
	}
	places := func() []group.Element {
		b, _ := castVote(pp)
		l, u, v := b.BpLower, b.BpUpper, b.VoteProof
		return []group.Element{b.Ballot.U, l.V, l.A, u.V, u.A, v.W, v.Kq1, v.Kq2, l.S, u.S, l.T1, l.T2, u.T1, u.T2}
	}
	from := len(rt.Draws())
	a := places()
	to := len(rt.Draws())
	own := make([]int, len(a))
	for j := from; j < to; j++ {
		at := len(rt.Draws())
		rt.Redraw(from, to, j)
		b := places()
		// a rerun that discards a response draws more, a draw may repeat
		rt.Assume(len(rt.Draws())-at == to-from && rt.Draws()[at+j-from].Cmp(rt.Draws()[j]) != 0)
		// what is released first by each part
		n, k := 0, 0
		for i := 0; i < 10; i++ {
			if !a[i].IsEqual(b[i]) {
				n, k = n+1, i
			}
		}
		if n == 1 {
			own[k]++
		}
		if n > 0 {
			continue
		}
		for i := 10; i < len(a); i++ {
			if !a[i].IsEqual(b[i]) {
				n, k = n+1, i
			}
		}
		if n == 1 {
			own[k]++
		}
	}
	ok := true
	for i := range own {
		ok = ok && own[i] > 0
	}
	rt.Assert("every released commitment has a mask of its own", ok)
	rt.Assert("each S has its own blinding vectors", own[8] >= 5 && own[9] >= 5)
	rt.Reach("done")
}
