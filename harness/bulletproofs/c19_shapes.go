package bulletproofs

import (
	"encoding/json"
	"math/big"

	"github.com/takakv/msc-poc/group"
	rt "github.com/takakv/msc-poc/verifrt"
)

// Lists of every combination of lengths: no panic, and only the right shape is
// accepted.
func verif_C19_shapes() {
	max := 3
	if rt.Thorough() {
		max = 4
	}
	rt.Bound("P-256, n in {1,2,4}: lists L, R, Gg, Hh of the inner-product part with 0 to 2 (thorough 3) entries each, the entries being those of an accepted proof or copies")
	n := int64(1) << uint(rt.Choice("n", 3))
	params := vsetup(n, vgroup(0))
	p, _, err := Prove(big.NewInt(1), params)
	rt.Assert("proving succeeds", err == nil)
	ip := &p.InnerProductProof
	nL := len(ip.L)
	resize := func(name string, l []group.Element) []group.Element {
		k := rt.Choice(name, max)
		out := append([]group.Element{}, l...)
		for len(out) < k {
			out = append(out, params.Gg[0])
		}
		return out[:k]
	}
	ip.L, ip.R = resize("L", ip.L), resize("R", ip.R)
	if rt.Bool("generators") {
		ip.Params.Gg, ip.Params.Hh = resize("Gg", ip.Params.Gg), resize("Hh", ip.Params.Hh)
	}
	doc, err := json.Marshal(p)
	rt.Assert("encoding succeeds", err == nil)
	var ok bool
	panics := rt.Panics(func() {
		q, err := BulletProofUnmarshalJSON(doc, params)
		if err != nil {
			return
		}
		ok, _ = q.Verify()
	})
	rt.Assert("decoding and verifying does not panic", !panics)
	rt.Assert("a proof with the wrong number of rounds is rejected", !ok || (len(ip.L) == nL && len(ip.R) == nL))
	rt.Reach("done")
}

// The same without the way through JSON.
func verif_C19_object() {
	rt.Bound("P-256, n in {1,2,4}: as above, without decoding")
	n := int64(1) << uint(rt.Choice("n", 3))
	params := vsetup(n, vgroup(0))
	p, _, err := Prove(big.NewInt(1), params)
	rt.Assert("proving succeeds", err == nil)
	ip := &p.InnerProductProof
	nL := len(ip.L)
	resize := func(name string, l []group.Element) []group.Element {
		k := rt.Choice(name, 4)
		out := append([]group.Element{}, l...)
		for len(out) < k {
			out = append(out, params.Gg[0])
		}
		return out[:k]
	}
	ip.L, ip.R = resize("L", ip.L), resize("R", ip.R)
	ip.Params.Gg, ip.Params.Hh = ip.Params.Gg[:0], ip.Params.Hh[:0]
	var ok bool
	panics := rt.Panics(func() { ok, _ = p.Verify() })
	rt.Assert("verifying does not panic", !panics)
	rt.Assert("a proof with the wrong number of rounds is rejected", !ok || (len(ip.L) == nL && len(ip.R) == nL))
	rt.Reach("done")
}
