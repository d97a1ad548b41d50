package voteproof

import (
	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Set-up with any lengths.
func verif_C21_lengths() {
	rt.Bound("all lengths of secret (0..255), challenge and order (0..65535) and all range bounds")
	bx := rt.Int("bx", 0, 255)
	bc := rt.Int("bc", 0, 65535)
	bg := rt.Int("bg", 0, 65535)
	lo, hi := rt.Int("lo", 0, 65535), rt.Int("hi", 0, 65535)
	ec := group.P256()
	var ap AlgebraicParameters
	ap.GEC = GroupParameters{G: ec.Generator(), H: ec.Generator(), N: ec.N(), F: ec.P(), I: ec}
	ap.GFF = ap.GEC
	var p ProofParams
	var err error
	panics := rt.Panics(func() { p, err = Setup(uint8(bx), uint16(bc), uint16(bg), uint16(lo), uint16(hi), ap) })
	rt.Assert("set-up does not panic", !panics)
	if panics {
		return
	}
	valid := bg-1-bx-bc >= 1 && bc <= 256
	rt.Assert("set-up succeeds exactly when a bit is left and the challenge fits one digest", (err == nil) == valid)
	if err != nil {
		rt.Reach("refused")
		return
	}
	rt.Assert("the abort margin is what is left", p.Bb == bg-1-bx-bc)
	rt.Assert("the parameters are the given ones", int(p.Bx) == bx && int(p.Bc) == bc && int(p.Bg) == bg && int(p.RangeLo) == lo && int(p.RangeHi) == hi)
	rt.Assert("the groups are the given ones", p.GEC.N.Cmp(ec.N()) == 0 && p.GFF.N.Cmp(ec.N()) == 0 && p.GEC.H.IsEqual(ap.GEC.H))
	rt.Reach("accepted")
}
