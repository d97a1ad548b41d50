package group

import (
	"encoding/json"
	"math/big"

	rt "github.com/takakv/msc-poc/verifrt"
)

// c17member asserts that e is an element of group number i.
func c17member(i int, g Group, e Element) {
	var bin []byte
	var err error
	rt.Assert("a decoded element can be encoded", !rt.Panics(func() { bin, err = e.MarshalBinary() }) && err == nil)
	if i >= 4 {
		v := new(big.Int).SetBytes(bin)
		rt.Assert("a decoded element is in the group", v.Sign() > 0 && v.Cmp(g.P()) < 0 && big.Jacobi(v, g.P()) == 1)
	} else if i < 3 && !e.IsIdentity() {
		l := (g.P().BitLen() + 7) / 8
		if i < 2 {
			rt.Assert("a decoded element has an uncompressed encoding", len(bin) == 1+2*l && bin[0] == 4)
			bin = bin[1:]
		}
		rt.Assert("a decoded element has an encoding of two coordinates", len(bin) == 2*l)
		x, y := new(big.Int).SetBytes(bin[:l]), new(big.Int).SetBytes(bin[l:])
		rt.Assert("a decoded element is in the group", rt.OnCurve(i, x, y))
	}
	rt.Assert("the order annihilates a decoded element", g.Element().Scale(e, g.N()).IsIdentity())
	rt.Assert("a decoded element equals itself only", e.IsEqual(e) && !e.IsEqual(g.Element().Add(e, g.Generator())) && !g.Element().Add(e, g.Generator()).IsEqual(e))
	doc, err := json.Marshal(e)
	rt.Assert("a decoded element can be encoded in JSON", err == nil)
	f := g.Element()
	rt.Assert("a decoded element round-trips in JSON", json.Unmarshal(doc, f) == nil && f.IsEqual(e))
}

// c17same asserts that the element decoded from data is the one data encodes.
func c17same(i int, g Group, e Element, data []byte) {
	bin, err := e.MarshalBinary()
	l := (g.P().BitLen() + 7) / 8
	ok := err == nil
	switch {
	case i >= 4:
		ok = ok && new(big.Int).SetBytes(bin).Cmp(new(big.Int).SetBytes(data)) == 0
	case i < 2 && len(data) == 1+l: // compressed
		ok = ok && len(bin) > l && string(bin[1:1+l]) == string(data[1:])
	default:
		ok = ok && string(bin) == string(data)
	}
	rt.Assert("what is decoded without error is what was encoded", ok)
}

// c17lens are the lengths tried: every documented length, one less and one more,
// and short ones.
func c17lens(i int) []int {
	switch i {
	case 0:
		return []int{0, 1, 2, 32, 33, 34, 64, 65, 66}
	case 1:
		return []int{0, 1, 2, 48, 49, 50, 96, 97, 98}
	case 2:
		return []int{0, 1, 32, 33, 63, 64, 65}
	case 3:
		return []int{0, 1, 31, 32, 33, 64}
	}
	return []int{0, 1, 2, 383, 384, 385}
}

func verif_C17_binary() {
	rt.Bound("every group, every byte string of the encoding lengths, one more, one less, and lengths 0 to 2")
	i := rt.Choice("group", vgroups)
	g := vgroup(i)
	ls := c17lens(i)
	data := rt.Bytes("data", ls[rt.Choice("len", len(ls))])
	e := g.Generator()
	var err error
	rt.Assert("decoding does not panic", !rt.Panics(func() { err = e.UnmarshalBinary(data) }))
	if err != nil {
		rt.Assert("a failed decoding leaves a group element", e.IsEqual(g.Generator()) || e.IsIdentity())
	} else {
		c17same(i, g, e, data)
	}
	c17member(i, g, e)
	rt.Assert("the generator is unchanged", g.Generator().IsEqual(g.Element().BaseScale(vone)))
	rt.Reach("done")
}

func verif_C17_setbytes() {
	rt.Bound("every group, every byte string of the encoding lengths, one more, one less, and lengths 0 to 2")
	i := rt.Choice("group", vgroups)
	g := vgroup(i)
	ls := c17lens(i)
	data := rt.Bytes("data", ls[rt.Choice("len", len(ls))])
	e := g.Generator()
	rt.Assert("decoding does not panic", !rt.Panics(func() { e.SetBytes(data) }))
	c17member(i, g, e)
	rt.Reach("done")
}

// A document of the right form with arbitrary numbers in it.
func verif_C17_json() {
	rt.Bound("every group, the form of its JSON encoding, numbers in [-2^3200, 2^3200], 31 to 33 bytes")
	i := rt.Choice("group", vgroups)
	g := vgroup(i)
	lim := new(big.Int).Lsh(vone, 3200)
	var doc, data []byte
	var x, y *big.Int
	var err error
	switch i {
	case 4:
		v := rt.Big("v", new(big.Int).Neg(lim), lim)
		doc, err = json.Marshal(v)
		data = v.Bytes()
	case 3:
		data = rt.Bytes("data", 31+rt.Choice("len", 3))
		doc, err = json.Marshal(data)
	default:
		x, y = rt.Big("x", new(big.Int).Neg(lim), lim), rt.Big("y", new(big.Int).Neg(lim), lim)
		doc, err = json.Marshal(struct {
			X *big.Int `json:"x"`
			Y *big.Int `json:"y"`
		}{x, y})
	}
	rt.Assert("document", err == nil)
	e := g.Generator()
	rt.Assert("decoding does not panic", !rt.Panics(func() { err = e.UnmarshalJSON(doc) }))
	if err != nil {
		rt.Assert("a failed decoding leaves a group element", e.IsEqual(g.Generator()) || e.IsIdentity())
	}
	if err == nil && i >= 3 {
		c17same(i, g, e, data)
	}
	if err == nil && i < 3 {
		bin, _ := e.MarshalBinary()
		l := (g.P().BitLen() + 7) / 8
		ok := x.Sign() == 0 && y.Sign() == 0 && e.IsIdentity()
		if !e.IsIdentity() && len(bin) >= 2*l {
			bin = bin[len(bin)-2*l:]
			ok = new(big.Int).SetBytes(bin[:l]).Cmp(x) == 0 && new(big.Int).SetBytes(bin[l:]).Cmp(y) == 0
		}
		rt.Assert("what is decoded without error is what was encoded", ok)
	}
	c17member(i, g, e)
	rt.Reach("done")
}

// A document with one place changed in form.
func verif_C17_mutated() {
	rt.Bound("every group: the encoding of an element with one value deleted, duplicated, or replaced by null, a string, any number, a list or an object")
	i := rt.Choice("group", vgroups)
	g := vgroup(i)
	doc, err := json.Marshal(g.Element().BaseScale(big.NewInt(7)))
	rt.Assert("encoding succeeds", err == nil)
	doc = rt.JMutate("m", doc, "")
	e := g.Generator()
	rt.Assert("decoding does not panic", !rt.Panics(func() { err = e.UnmarshalJSON(doc) }))
	c17member(i, g, e)
	rt.Reach("done")
}

func verif_C17_documents() {
	rt.Bound("every group: malformed and unusual documents")
	i := rt.Choice("group", vgroups)
	g := vgroup(i)
	docs := []string{"", " ", "null", "{}", "[]", "0", "1", "2", "-1", "1.5", "1e400", `"x"`, `""`, `"AA=="`, "true", "{", "[1", `{"x":1}`, `{"y":1}`,
		`{"x":null,"y":null}`, `{"x":0,"y":null}`, `{"x":"1","y":"2"}`, `{"x":1.5,"y":2}`, `{"x":1,"y":2}`, `{"x":-1,"y":-2}`,
		`{"x":[],"y":{}}`, `{"x":0,"y":0}`, `{"x":0,"y":1}`, `{"x":1,"y":0}`, `{"X":0,"Y":0}`, `[0,0]`, `"` + "\\u0000" + `"`}
	doc := []byte(docs[rt.Choice("doc", len(docs))])
	e := g.Generator()
	var err error
	rt.Assert("decoding does not panic", !rt.Panics(func() { err = e.UnmarshalJSON(doc) }))
	rt.Assert("decoding through the package does not panic", !rt.Panics(func() { _ = json.Unmarshal(doc, g.Generator()) }))
	if err != nil {
		rt.Assert("a failed decoding leaves a group element", e.IsEqual(g.Generator()) || e.IsIdentity())
	}
	c17member(i, g, e)
	rt.Reach("done")
}

// Coordinates that are those of a point modulo the field order, but not
// themselves field elements.
func verif_C17_noncanonical() {
	rt.Bound("every curve with coordinates: the generator, its coordinates shifted by -2 to 2 times the field order; secp256k1: the point with x=1")
	i := rt.Choice("group", 3)
	g := vgroup(i)
	type pt struct {
		X *big.Int `json:"x"`
		Y *big.Int `json:"y"`
	}
	gen, _ := g.Generator().MarshalBinary()
	l := (g.P().BitLen() + 7) / 8
	gen = gen[len(gen)-2*l:]
	x, y := new(big.Int).SetBytes(gen[:l]), new(big.Int).SetBytes(gen[l:])
	if i == 2 && rt.Choice("small", 2) == 1 {
		x = big.NewInt(1)
		y = c17hex("4218f20ae6c646b363db68605822fb14264ca8d2587fdd6fbc750d587e76a7ee")
	}
	rt.Assert("on the curve", rt.OnCurve(i, x, y))
	kx, ky := rt.Choice("kx", 5)-2, rt.Choice("ky", 5)-2
	x = new(big.Int).Add(x, new(big.Int).Mul(big.NewInt(int64(kx)), g.P()))
	y = new(big.Int).Add(y, new(big.Int).Mul(big.NewInt(int64(ky)), g.P()))
	doc, err := json.Marshal(pt{x, y})
	rt.Assert("document", err == nil)
	e := g.Element()
	rt.Assert("decoding does not panic", !rt.Panics(func() { err = e.UnmarshalJSON(doc) }))
	rt.Assert("only coordinates in the field are accepted in JSON", (err == nil) == (kx == 0 && ky == 0))
	if x.Sign() >= 0 && y.Sign() >= 0 && x.BitLen() <= 8*l && y.BitLen() <= 8*l {
		bin := make([]byte, 2*l)
		x.FillBytes(bin[:l])
		y.FillBytes(bin[l:])
		if i < 2 {
			bin = append([]byte{4}, bin...)
		}
		e = g.Element()
		rt.Assert("decoding does not panic", !rt.Panics(func() { err = e.UnmarshalBinary(bin) }))
		rt.Assert("only coordinates in the field are accepted in binary", (err == nil) == (kx == 0 && ky == 0))
	}
	rt.Reach("done")
}

func c17hex(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }
