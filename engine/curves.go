package main

import (
	"crypto/elliptic"
	"fmt"
	"go/types"
	"math/big"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// CurveInfo describes a prime-order curve group. Elements are represented by
// their discrete logarithm (a polynomial modulo N); coordinates are opaque
// injective functions of it, evaluated concretely when it is constant.
type CurveInfo struct {
	name   string
	N, P   *big.Int
	A, B   *big.Int
	Gx, Gy *big.Int
	size   int // bytes per coordinate
	enc    int // 0: coordinates, 1: 32-byte opaque encoding (ristretto)
	mu     sync.Mutex
	tab    map[string]*big.Int
}

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return v
}

var (
	curveP256 = mkNist("P256", elliptic.P256().Params(), 32)
	curveP384 = mkNist("P384", elliptic.P384().Params(), 48)
	curveK1   = &CurveInfo{name: "secp256k1", N: hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
		P: hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"), A: big.NewInt(0), B: big.NewInt(7),
		Gx: hexInt("79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798"), Gy: hexInt("483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8"), size: 32}
	curveR255 = &CurveInfo{name: "ristretto255", N: hexInt("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed"),
		P: hexInt("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed"), enc: 1, size: 32}
)

func mkNist(n string, p *elliptic.CurveParams, size int) *CurveInfo {
	return &CurveInfo{name: n, N: p.N, P: p.P, A: new(big.Int).Sub(p.P, big.NewInt(3)), B: p.B, Gx: p.Gx, Gy: p.Gy, size: size}
}

// rhs is x^3 + Ax + B.
func (ci *CurveInfo) rhs(x *big.Int) *big.Int {
	r := new(big.Int).Mul(x, x)
	r.Add(r, ci.A)
	r.Mul(r, x)
	r.Add(r, ci.B)
	return r.Mod(r, ci.P)
}

func (ci *CurveInfo) onCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(ci.P) >= 0 || y.Cmp(ci.P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	l.Sub(l, ci.rhs(x))
	return l.Mod(l, ci.P).Sign() == 0
}

// concrete affine arithmetic (nil,nil = infinity)
func (ci *CurveInfo) addC(x1, y1, x2, y2 *big.Int) (*big.Int, *big.Int) {
	if x1 == nil {
		return x2, y2
	}
	if x2 == nil {
		return x1, y1
	}
	var l *big.Int
	if x1.Cmp(x2) == 0 {
		s := new(big.Int).Add(y1, y2)
		if s.Mod(s, ci.P).Sign() == 0 {
			return nil, nil
		}
		l = new(big.Int).Mul(x1, x1)
		l.Mul(l, big.NewInt(3))
		l.Add(l, ci.A)
		d := new(big.Int).Lsh(y1, 1)
		l.Mul(l, d.ModInverse(d, ci.P))
	} else {
		l = new(big.Int).Sub(y2, y1)
		d := new(big.Int).Sub(x2, x1)
		d.Mod(d, ci.P)
		l.Mul(l, d.ModInverse(d, ci.P))
	}
	l.Mod(l, ci.P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, x1)
	x.Sub(x, x2)
	x.Mod(x, ci.P)
	y := new(big.Int).Sub(x1, x)
	y.Mul(y, l)
	y.Sub(y, y1)
	y.Mod(y, ci.P)
	return x, y
}
func (ci *CurveInfo) mulG(k *big.Int) (*big.Int, *big.Int) {
	var rx, ry *big.Int
	bx, by := ci.Gx, ci.Gy
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			rx, ry = ci.addC(rx, ry, bx, by)
		}
		bx, by = ci.addC(bx, by, bx, by)
	}
	return rx, ry
}

func (ci *CurveInfo) dlogByCoord(c *Ctx, isX bool, v *big.Int) *Poly {
	if isX {
		if d, ok := c.memo["cx:"+ci.name+":"+v.Text(62)]; ok {
			return d.(*Poly)
		}
	} else if d, ok := c.memo["cy:"+ci.name+":"+v.Text(62)]; ok {
		return d.(*Poly)
	}
	return nil
}

// register ties a discrete log to known coordinates (and the negated point).
func (ci *CurveInfo) register(c *Ctx, d *Poly, x, y *Poly) {
	d = c.modN(d, ci.N)
	nd := c.modN(pNeg(d), ci.N)
	ny := pSub(pConst(ci.P), y)
	for _, e := range []struct {
		d, y *Poly
	}{{d, y}, {nd, ny}} {
		c.coords[ci.name+e.d.Key()] = [2]*Poly{x, e.y}
		c.memo["xy:"+ci.name+":"+x.Key()+e.y.Key()] = e.d
		if e.y.isConst() {
			c.memo["cy:"+ci.name+":"+e.y.constVal().Text(62)] = e.d
		}
	}
	if x.isConst() == false && !c.isCoordAtom(x) {
		// coordinates given as numbers: remember whose they are
		c.memo["xof:"+ci.name+":"+x.Key()] = d
		c.memo["yof:"+ci.name+":"+y.Key()] = d
		c.memo["yof:"+ci.name+":"+ny.Key()] = nd
		c.memo["xof?"] = true
	}
	if x.isConst() {
		c.memo["cx:"+ci.name+":"+x.constVal().Text(62)] = d
	}
}

func (c *Ctx) isCoordAtom(p *Poly) bool {
	_, a, _ := c.linAtom(p)
	return a != nil && (a.kind == aCoordX || a.kind == aCoordY)
}

// coordEq decides p = 0 where p is the difference of a coordinate given as a
// number and another coordinate.
func (c *Ctx) coordEq(p *Poly) *Pred {
	if c.memo["xof?"] == nil {
		return nil
	}
	for m, v := range p.t {
		if len(m) != 8 || v.CmpAbs(one) != 0 {
			continue
		}
		f := factors(m)[0]
		a := c.atoms[f.id]
		if f.e != 1 || a.kind != aCoordX && a.kind != aCoordY {
			continue
		}
		rest := pScale(pSub(p, pScale(c.atomPoly(a), v)), new(big.Int).Neg(v))
		if a.kind == aCoordX {
			if d, ok := c.memo["xof:"+a.grp.name+":"+rest.Key()].(*Poly); ok {
				return mkOr(c.zmod(pSub(a.p, d), a.grp.N), c.zmod(pAdd(a.p, d), a.grp.N))
			}
		} else if d, ok := c.memo["yof:"+a.grp.name+":"+rest.Key()].(*Poly); ok {
			return c.zmod(pSub(a.p, d), a.grp.N)
		}
	}
	for _, ci := range []*CurveInfo{curveP256, curveP384, curveK1} {
		for _, q := range []*Poly{p, pNeg(p)} {
			// the generator's
			if d, ok := c.memo["xof:"+ci.name+":"+pAdd(q, pConst(ci.Gx)).Key()].(*Poly); ok {
				return mkOr(c.zmod(pSub(d, pInt(1)), ci.N), c.zmod(pAdd(d, pInt(1)), ci.N))
			}
			if d, ok := c.memo["yof:"+ci.name+":"+pAdd(q, pConst(ci.Gy)).Key()].(*Poly); ok {
				return c.zmod(pSub(d, pInt(1)), ci.N)
			}
		}
	}
	return nil
}

// coordsOf gives the affine coordinates of the (non-identity) point d.
func (c *Ctx) coordsOf(ci *CurveInfo, d *Poly) (*Poly, *Poly) {
	d = c.modN(d, ci.N)
	if xy, ok := c.coords[ci.name+d.Key()]; ok {
		return xy[0], xy[1]
	}
	if d.isConst() {
		x, y := ci.mulG(d.constVal())
		if x == nil {
			return pInt(0), pInt(0)
		}
		ci.register(c, d, pConst(x), pConst(y))
		return pConst(x), pConst(y)
	}
	nd := c.modN(pNeg(d), ci.N)
	can := d
	if nd.Key() < d.Key() {
		can = nd
	}
	hi := new(big.Int).Sub(ci.P, one)
	g := c.polyGeneric(can)
	ax := c.mkAtom("X:"+ci.name+":"+can.Key(), func() *Atom {
		return &Atom{kind: aCoordX, p: can, grp: ci, lo: zero, hi: hi, generic: g}
	})
	ay := c.mkAtom("Y:"+ci.name+":"+can.Key(), func() *Atom {
		return &Atom{kind: aCoordY, p: can, grp: ci, lo: zero, hi: hi, generic: g}
	})
	ci.register(c, can, c.atomPoly(ax), c.atomPoly(ay))
	xy := c.coords[ci.name+d.Key()]
	return xy[0], xy[1]
}

// dlogOf recovers the discrete log of a coordinate pair when it denotes a
// point of the group. ok=false: the pair is (or may be) no point.
func (c *Ctx) dlogOf(ci *CurveInfo, x, y *Poly) (*Poly, bool) {
	if d, ok := c.memo["xy:"+ci.name+":"+x.Key()+y.Key()]; ok {
		return d.(*Poly), true
	}
	if x.isConst() && y.isConst() {
		xv, yv := x.constVal(), y.constVal()
		if xv.Sign() == 0 && yv.Sign() == 0 {
			return pInt(0), true
		}
		if !ci.onCurve(xv, yv) {
			return nil, false
		}
		if xv.Cmp(ci.Gx) == 0 {
			d := pInt(1)
			if yv.Cmp(ci.Gy) != 0 {
				d = pConst(new(big.Int).Sub(ci.N, one))
			}
			ci.register(c, d, x, y)
			return d, true
		}
		for k := int64(2); k < 40; k++ {
			kx, ky := ci.mulG(big.NewInt(k))
			if kx.Cmp(xv) == 0 {
				d := big.NewInt(k)
				if ky.Cmp(yv) != 0 {
					d.Sub(ci.N, d)
				}
				ci.register(c, pConst(d), x, y)
				return pConst(d), true
			}
		}
		d := c.sym("dl_"+ci.name+"_"+xv.Text(62)+"_"+fmt.Sprint(yv.Bit(0)), cGen, one, new(big.Int).Sub(ci.N, one))
		ci.register(c, d, x, y)
		return d, true
	}
	return nil, false
}

// onCurvePred is the predicate "(x,y) satisfies the curve equation".
func (c *Ctx) onCurvePred(ci *CurveInfo, x, y *Poly) *Pred {
	if d, ok := c.dlogOf(ci, x, y); ok {
		if d.isZero() {
			return tFalse
		}
		return tTrue
	}
	if x.isConst() && y.isConst() {
		return tFalse
	}
	if x.isConst() {
		y0 := new(big.Int).ModSqrt(ci.rhs(x.constVal()), ci.P)
		if y0 == nil {
			return tFalse
		}
		for _, r := range []*big.Int{y0, new(big.Int).Sub(ci.P, y0)} {
			if c.branch(c.eq(y, pConst(r))) {
				if d, ok := c.dlogOf(ci, x, pConst(r)); ok {
					ci.register(c, d, x, y)
				}
				return tTrue
			}
		}
		return tFalse
	}
	// there is no point with y = 0, and on secp256k1 none with x = 0
	if c.branch(c.eq0(y)) || ci == curveK1 && c.branch(c.eq0(x)) {
		return tFalse
	}
	v := &Pred{op: pVar, smt: fmt.Sprintf("onc_%s_%x", ci.name, shortHash(x.Key()+"|"+y.Key())), key: "V:onc" + ci.name + x.Key() + y.Key()}
	if !c.branch(v) {
		return tFalse
	}
	// a point: it has a discrete logarithm (the curves have prime order)
	c.junkPoint(ci, x, y)
	return tTrue
}

// junkPoint introduces a nondeterministic element for a coordinate pair
// assumed to be on the curve.
func (c *Ctx) junkPoint(ci *CurveInfo, x, y *Poly) *Poly {
	if d, ok := c.dlogOf(ci, x, y); ok {
		return d
	}
	d := c.sym(fmt.Sprintf("jp_%s_%x", ci.name, []byte(x.Key() + y.Key())[:24]), cNondet, one, new(big.Int).Sub(ci.N, one))
	ci.register(c, d, x, y)
	return d
}

// ---------------------------------------------------------------- circl host objects

type hostGroup struct{ ci *CurveInfo }
type hostElem struct {
	ci  *CurveInfo
	box value // *value holding the discrete log *Poly
}
type hostScalar struct {
	ci *CurveInfo
	v  value // *Poly in [0,N)
}

func (h *hostGroup) typeName() string  { return "group" }
func (h *hostElem) typeName() string   { return "element" }
func (h *hostScalar) typeName() string { return "scalar" }

func (e *hostElem) d() *Poly { return (*e.box.(*value)).(*Poly) }

func (c *Ctx) hostIface(kind string, v value) iface { return iface{c.P.hostTypes[kind], v} }

func (c *Ctx) newElem(ci *CurveInfo, d *Poly) *hostElem {
	return &hostElem{ci: ci, box: newCell(c.modN(d, ci.N))}
}
func (c *Ctx) elemIface(e *hostElem) iface {
	return c.hostIface("elem-"+e.ci.name, e)
}

func (h *hostGroup) method(c *Ctx, name string, args []value) value {
	ci := h.ci
	switch name {
	case "NewElement", "Identity":
		return c.elemIface(c.newElem(ci, pInt(0)))
	case "Generator":
		if ci.enc == 1 {
			return c.elemIface(c.newElem(ci, pInt(1)))
		}
		b, ok := c.memo["genbox:"+ci.name].(*value)
		if !ok {
			b = newCell(pInt(1))
			c.memo["genbox:"+ci.name] = b
		}
		return c.elemIface(&hostElem{ci: ci, box: b})
	case "NewScalar":
		return c.hostIface("scalar-"+ci.name, &hostScalar{ci: ci, v: pInt(0)})
	case "RandomElement":
		return c.elemIface(c.newElem(ci, c.drawScalar(ci)))
	case "RandomScalar", "RandomNonZeroScalar":
		return c.hostIface("scalar-"+ci.name, &hostScalar{ci: ci, v: c.drawScalar(ci)})
	case "HashToElement", "HashToElementNonUniform":
		r := ropeCat(c.bytesRope(args[0]), ropeStr("\x00|"), c.bytesRope(args[1]))
		d := c.sym(fmt.Sprintf("h2c_%s_%s_%x", ci.name, name[12:], shortHash(r.Key())), cGen, one, new(big.Int).Sub(ci.N, one))
		return c.elemIface(c.newElem(ci, d))
	case "HashToScalar":
		r := ropeCat(c.bytesRope(args[0]), ropeStr("\x00|"), c.bytesRope(args[1]))
		d := c.sym(fmt.Sprintf("h2s_%s_%x", ci.name, shortHash(r.Key())), cHash, zero, new(big.Int).Sub(ci.N, one))
		return c.hostIface("scalar-"+ci.name, &hostScalar{ci: ci, v: d})
	case "String":
		return ci.name
	}
	c.unsupported("circl group method " + name)
	return nil
}

func (c *Ctx) drawScalar(ci *CurveInfo) *Poly {
	return c.draw(ci.N, true)
}

// draw yields a value sampled from [0, max).
func (c *Ctx) draw(max *big.Int, raw bool) *Poly {
	if c.spec > 0 {
		panic(specAbort{"rand"})
	}
	if c.drawLabel == "-" && len(c.rands) >= c.drawLimit {
		panic(pathEnd{"draw limit"})
	}
	if c.drawLabel != "" && len(c.rands) >= c.drawLimit {
		c.assertion(c.drawLabel, tFalse)
	}
	var p *Poly
	if len(c.again) > 0 {
		p = c.again[0]
		c.again = c.again[1:]
		if p != nil && !c.fits(p, max) {
			p = nil
		}
	} else if c.forced != nil && c.fits(c.forced, max) {
		p = c.forced
	}
	if p == nil {
		p = c.sym(fmt.Sprintf("rnd%d", len(c.rands)), cRand, zero, new(big.Int).Sub(max, one))
	}
	c.rands = append(c.rands, randRec{p: p, max: max, raw: raw})
	return p
}

// drawBelow is rand.Int for a small bound m that is not constant, at most hi.
func (c *Ctx) drawBelow(m *Poly, hi *big.Int, strong bool) value {
	if c.branch(c.le(m, pInt(0))) {
		panic(targetPanic{v: c.strIface("crypto/rand: argument to Int is <= 0"), msg: "crypto/rand: argument to Int is <= 0"})
	}
	if c.branch(c.le(m, pInt(1))) {
		return tuple{newCell(pInt(0)), iface{}}
	}
	if !strong {
		return tuple{newCell(c.weakDraw(hi)), iface{}}
	}
	p := c.draw(hi, false)
	c.rands[len(c.rands)-1].upper = m
	c.assume(c.lt(p, m))
	return tuple{newCell(p), iface{}}
}

func (c *Ctx) fits(p *Poly, max *big.Int) bool {
	return c.branch(mkAnd(c.le(pInt(0), p), c.lt(p, pConst(max))))
}

func (c *Ctx) argElem(ci *CurveInfo, v value) *hostElem {
	i, ok := v.(iface)
	if !ok {
		c.unsupported("element argument")
	}
	if i.t == nil {
		if ci.enc == 1 {
			c.panicStr("interface conversion: nil")
		}
		return c.newElem(ci, pInt(0))
	}
	e, ok := i.v.(*hostElem)
	if !ok || e.ci != ci {
		panic(targetPanic{msg: "group: type mismatch", v: iface{c.P.errType, &hostErr{msg: "group: type mismatch"}}})
	}
	return e
}
func (c *Ctx) argScalar(ci *CurveInfo, v value) *Poly {
	i, ok := v.(iface)
	if !ok {
		c.unsupported("scalar argument")
	}
	if i.t == nil {
		return pInt(0)
	}
	s, ok := i.v.(*hostScalar)
	if !ok || s.ci != ci {
		panic(targetPanic{msg: "group: type mismatch", v: iface{c.P.errType, &hostErr{msg: "group: type mismatch"}}})
	}
	return s.v.(*Poly)
}

func (e *hostElem) replace(c *Ctx, d *Poly) value {
	d = c.modN(d, e.ci.N)
	if e.ci.enc == 1 {
		c.set(e.box.(*value), d)
	} else {
		c.set(&e.box, newCell(d))
	}
	return c.elemIface(e)
}
func (e *hostElem) inPlace(c *Ctx, d *Poly) value {
	c.set(e.box.(*value), c.modN(d, e.ci.N))
	return c.elemIface(e)
}

func (e *hostElem) method(c *Ctx, name string, args []value) value {
	ci := e.ci
	switch name {
	case "Group":
		return c.hostIface("group", &hostGroup{ci})
	case "Set":
		return e.inPlace(c, c.argElem(ci, args[0]).d())
	case "Copy":
		return c.elemIface(c.newElem(ci, e.d()))
	case "IsIdentity":
		return c.boolVal(c.zmod(e.d(), ci.N))
	case "IsEqual":
		return c.boolVal(c.zmod(pSub(e.d(), c.argElem(ci, args[0]).d()), ci.N))
	case "Add":
		return e.replace(c, pAdd(c.argElem(ci, args[0]).d(), c.argElem(ci, args[1]).d()))
	case "Dbl":
		return e.replace(c, pScale(c.argElem(ci, args[0]).d(), two))
	case "Neg":
		return e.inPlace(c, pNeg(c.argElem(ci, args[0]).d()))
	case "Mul":
		a := c.argElem(ci, args[0]).d()
		return e.replace(c, c.pMulMod(a, c.modN(c.argScalar(ci, args[1]), ci.N), ci.N))
	case "MulGen":
		return e.replace(c, c.argScalar(ci, args[0]))
	case "MarshalBinary", "MarshalBinaryCompress":
		return tuple{c.bytesVal(c.elemBytes(e, name == "MarshalBinaryCompress")), iface{}}
	case "String":
		return ropeVal(ropeCat(ropeStr("elt:"), c.elemBytes(e, false)))
	case "UnmarshalBinary":
		return e.unmarshal(c, args[0])
	case "CMov":
		v := c.concInt(args[0], "selector")
		a := c.argElem(ci, args[1]).d()
		if v == 1 {
			return e.inPlace(c, a)
		}
		return c.elemIface(e)
	case "CSelect":
		v := c.concInt(args[0], "selector")
		if v == 1 {
			return e.inPlace(c, c.argElem(ci, args[1]).d())
		}
		return e.inPlace(c, c.argElem(ci, args[2]).d())
	}
	c.unsupported("circl element method " + name)
	return nil
}

func (c *Ctx) elemBytes(e *hostElem, compress bool) *Rope {
	ci := e.ci
	d := e.d()
	if ci.enc == 1 {
		if c.branch(c.zmod(d, ci.N)) {
			return ropeStr(string(make([]byte, 32)))
		}
		if b, ok := c.memo["renc:"+d.Key()].(*Rope); ok {
			return b
		}
		return ropeTok(&Tok{kind: "renc", p: d, n: 32, key: d.Key(), cls: ci})
	}
	if c.branch(c.zmod(d, ci.N)) {
		return ropeStr("\x00")
	}
	x, y := c.coordsOf(ci, d)
	if compress {
		par := c.mkMod(y, two)
		return c.cellsRope(append([]value{c.intVal(pAdd(par, pInt(2)), false)}, c.cells(c.beRope(x, ci.size))...))
	}
	return ropeCat(ropeStr("\x04"), c.beRope(x, ci.size), c.beRope(y, ci.size))
}

// beRope is the n-byte big-endian encoding of x (0 <= x < 256^n).
func (c *Ctx) beRope(x *Poly, n int) *Rope {
	if x.isConst() {
		return ropeStr(string(x.constVal().FillBytes(make([]byte, n))))
	}
	return ropeTok(c.tokBE(x, n))
}

func (c *Ctx) hostErrVal(msg string) iface { return iface{c.P.errType, &hostErr{msg: msg}} }

func (e *hostElem) unmarshal(c *Ctx, b value) value {
	ci := e.ci
	r := c.bytesRope(b)
	if _, ok := r.fixedLen(); !ok {
		r = c.fixLens(r)
	}
	n, _ := r.fixedLen()
	bad := c.hostErrVal("group: error unmarshaling")
	if ci.enc == 1 {
		if n != 32 {
			return c.hostErrVal("ristretto.Point should be 32 bytes")
		}
		if s, ok := r.concrete(); ok {
			if s == string(make([]byte, 32)) {
				c.set(e.box.(*value), pInt(0))
				return iface{}
			}
		} else if len(r.segs) != 1 || r.segs[0].tok.kind != "renc" {
			if c.branch(c.eq0(c.ropeUint(r))) {
				c.set(e.box.(*value), pInt(0))
				return iface{}
			}
		}
		if len(r.segs) == 1 && r.segs[0].tok != nil && r.segs[0].tok.kind == "renc" && r.segs[0].a == 0 && r.segs[0].b == 32 {
			c.set(e.box.(*value), r.segs[0].tok.p)
			return iface{}
		}
		// arbitrary bytes: valid encoding of some element or an error
		v := &Pred{op: pVar, smt: fmt.Sprintf("renc_%x", shortHash(r.Key())), key: "V:renc" + r.Key()}
		if c.branch(v) {
			d := c.sym(fmt.Sprintf("rp_%x", shortHash(r.Key())), cNondet, one, new(big.Int).Sub(ci.N, one))
			c.memo["renc:"+d.Key()] = r
			c.set(e.box.(*value), d)
			return iface{}
		}
		// what the library leaves behind is no point
		c.set(e.box.(*value), c.sym(fmt.Sprintf("badpt_%x", shortHash(r.Key())), cNondet, zero, new(big.Int).Sub(ci.N, one)))
		return c.hostErrVal("ristretto.Point: invalid encoding")
	}
	cs := c.cells(r)
	if n == 0 {
		return bad
	}
	isByte := func(v value, k int64) bool { return c.branch(c.eq(c.toPoly(v), pInt(k))) }
	switch n {
	case 1:
		if isByte(cs[0], 0) {
			e.inPlace(c, pInt(0))
			return iface{}
		}
	case 1 + ci.size:
		if isByte(cs[0], 2) || isByte(cs[0], 3) {
			x := c.ropeUint(c.cellsRope(cs[1:]))
			if !c.branch(c.lt(x, pConst(ci.P))) {
				return bad
			}
			// some point with that x coordinate, if any
			v := &Pred{op: pVar, smt: fmt.Sprintf("cx_%s_%x", ci.name, shortHash(x.Key())), key: "V:cx" + ci.name + x.Key()}
			if c.branch(v) {
				d := c.sym(fmt.Sprintf("cp_%s_%x", ci.name, shortHash(r.Key())), cNondet, one, new(big.Int).Sub(ci.N, one))
				_, y := c.coordsOf(ci, d)
				ci.register(c, d, x, y)
				e.replace(c, d)
				return iface{}
			}
			return bad
		}
	case 1 + 2*ci.size:
		if isByte(cs[0], 4) {
			x := c.ropeUint(c.cellsRope(cs[1 : 1+ci.size]))
			y := c.ropeUint(c.cellsRope(cs[1+ci.size:]))
			if d, ok := c.dlogOf(ci, x, y); ok && !d.isZero() {
				e.replace(c, d)
				return iface{}
			}
			if !c.branch(mkAnd(c.lt(x, pConst(ci.P)), c.lt(y, pConst(ci.P)))) {
				return bad
			}
			if c.branch(c.onCurvePred(ci, x, y)) {
				e.replace(c, c.junkPoint(ci, x, y))
				return iface{}
			}
			return bad
		}
	}
	return bad
}

func (s *hostScalar) method(c *Ctx, name string, args []value) value {
	ci := s.ci
	ret := func(p *Poly) value {
		c.set(&s.v, c.mkMod(p, ci.N))
		return c.hostIface("scalar-"+ci.name, s)
	}
	cur := s.v.(*Poly)
	switch name {
	case "SetBigInt":
		return ret(c.bigArg(args[0]))
	case "SetUint64":
		return ret(c.toPoly(args[0]))
	case "Set":
		return ret(c.argScalar(ci, args[0]))
	case "Copy":
		return c.hostIface("scalar-"+ci.name, &hostScalar{ci: ci, v: cur})
	case "Add":
		return ret(pAdd(c.argScalar(ci, args[0]), c.argScalar(ci, args[1])))
	case "Sub":
		return ret(pSub(c.argScalar(ci, args[0]), c.argScalar(ci, args[1])))
	case "Mul":
		return ret(c.pMul(c.argScalar(ci, args[0]), c.argScalar(ci, args[1])))
	case "Neg":
		return ret(pNeg(c.argScalar(ci, args[0])))
	case "Inv":
		iv, ok := c.modInverse(c.argScalar(ci, args[0]), ci.N)
		if !ok {
			iv = pInt(0)
		}
		return ret(iv)
	case "IsZero":
		return c.boolVal(c.zmod(cur, ci.N))
	case "IsEqual":
		return c.boolVal(c.zmod(pSub(cur, c.argScalar(ci, args[0])), ci.N))
	case "MarshalBinary":
		return tuple{c.bytesVal(c.beRope(cur, ci.size)), iface{}}
	}
	c.unsupported("circl scalar method " + name)
	return nil
}

// ---------------------------------------------------------------- secp256k1 (zkrp + go-ethereum)

func (c *Ctx) bigOf(v value) *Poly  { return c.bigArg(v) }
func (c *Ctx) newBig(p *Poly) value { return newCell(p) }

// redConst reduces a constant coordinate: the library's curve checks work
// modulo the field order.
func (c *Ctx) redConst(p *Poly) *Poly {
	if p.isConst() {
		return pConst(new(big.Int).Mod(p.constVal(), curveK1.P))
	}
	return p
}

// k1Point interprets two *big.Int coordinates as a point.
func (c *Ctx) k1Point(x, y value) *Poly {
	px, py := c.bigArg(x), c.bigArg(y)
	if d, ok := c.dlogOf(curveK1, px, py); ok {
		return d
	}
	// not recognisable as a point: arbitrary result
	c.note("secp256k1 arithmetic on an unrecognised coordinate pair")
	return c.junkPoint(curveK1, px, py)
}
func (c *Ctx) k1Coords(d *Poly) tuple {
	x, y := c.coordsOf(curveK1, d)
	return tuple{c.newBig(x), c.newBig(y)}
}

func init() {
	reg("(*github.com/ing-bank/zkrp/crypto/p256.MyBitCurve).Add", func(c *Ctx, a []value) value {
		d1 := c.k1Point(a[1], a[2])
		d2 := c.k1Point(a[3], a[4])
		if c.branch(c.zmod(pSub(d1, d2), curveK1.N)) || c.branch(c.zmod(pAdd(d1, d2), curveK1.N)) {
			return tuple{c.newBig(pInt(0)), c.newBig(pInt(0))}
		}
		return c.k1Coords(pAdd(d1, d2))
	})
	reg("(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve).Add", func(c *Ctx, a []value) value {
		d := pAdd(c.k1Point(a[1], a[2]), c.k1Point(a[3], a[4]))
		if c.branch(c.zmod(d, curveK1.N)) {
			return tuple{c.newBig(pInt(0)), c.newBig(pInt(0))}
		}
		return c.k1Coords(d)
	})
	reg("(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve).Double", func(c *Ctx, a []value) value {
		return c.k1Coords(pScale(c.k1Point(a[1], a[2]), two))
	})
	mul := func(c *Ctx, d *Poly, sc value) value {
		r := c.bytesRope(sc)
		k := c.ropeUint(r)
		if !c.branch(c.lt(k, pConst(new(big.Int).Lsh(one, 256)))) {
			panic(targetPanic{msg: "can't handle scalars > 256 bits", v: iface{types.Typ[types.String], "can't handle scalars > 256 bits"}})
		}
		if c.branch(mkOr(c.eq(k, pInt(0)), c.le(pConst(curveK1.N), k))) {
			return tuple{(*value)(nil), (*value)(nil)}
		}
		p := c.pMulMod(d, c.modN(k, curveK1.N), curveK1.N)
		// the order is prime: the product vanishes iff a factor does, and k is in (0,N)
		if c.branch(c.zmod(d, curveK1.N)) {
			return tuple{(*value)(nil), (*value)(nil)}
		}
		return c.k1Coords(p)
	}
	reg("(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve).ScalarMult", func(c *Ctx, a []value) value {
		return mul(c, c.k1Point(a[1], a[2]), a[3])
	})
	reg("(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve).ScalarBaseMult", func(c *Ctx, a []value) value {
		return mul(c, pInt(1), a[1])
	})
	reg("(*github.com/ethereum/go-ethereum/crypto/secp256k1.BitCurve).IsOnCurve", func(c *Ctx, a []value) value {
		return c.boolVal(c.onCurvePred(curveK1, c.redConst(c.bigArg(a[1])), c.redConst(c.bigArg(a[2]))))
	})
	reg("(*github.com/ing-bank/zkrp/crypto/p256.P256).IsOnCurve", func(c *Ctx, a []value) value {
		p := a[0].(*value)
		if p == nil {
			c.panicStr("invalid memory address or nil pointer dereference")
		}
		s := (*p).(structure)
		return c.boolVal(c.onCurvePred(curveK1, c.redConst(c.bigArg(s[0])), c.redConst(c.bigArg(s[1]))))
	})
	reg("github.com/ing-bank/zkrp/util/byteconversion.FromByteArray", func(c *Ctx, a []value) value {
		r := c.bytesRope(a[0])
		n, ok := r.fixedLen()
		if !ok {
			c.unsupported("FromByteArray of variable-length bytes")
		}
		if n == 0 {
			return tuple{(*value)(nil), c.hostErrVal("Cannot convert empty array to big.Int.")}
		}
		m := new(big.Int).Lsh(one, uint(8*n))
		h := new(big.Int).Rsh(m, 1)
		if s, ok := r.concrete(); ok {
			v := new(big.Int).SetBytes([]byte(s))
			if v.Cmp(h) >= 0 {
				v.Sub(v, m)
			}
			return tuple{c.newBig(pConst(v)), iface{}}
		}
		if len(r.segs) == 1 && r.segs[0].tok != nil && r.segs[0].tok.kind == "hash" {
			v := c.sym(fmt.Sprintf("sgn_%x_%d_%d", shortHash(r.segs[0].tok.Key()), r.segs[0].a, r.segs[0].b), cHash, new(big.Int).Neg(h), new(big.Int).Sub(h, one))
			return tuple{c.newBig(v), iface{}}
		}
		u := c.ropeUint(r)
		return tuple{c.newBig(pSub(u, pScale(c.ind(c.le(pConst(h), u)), m))), iface{}}
	})
}

func (c *Ctx) hostGlobal(g *ssa.Global) *value {
	if g.Pkg == nil {
		return nil
	}
	switch g.Pkg.Pkg.Path() + "." + g.Name() {
	case "github.com/cloudflare/circl/group.P256":
		return newCell(c.hostIface("group", &hostGroup{curveP256}))
	case "github.com/cloudflare/circl/group.P384":
		return newCell(c.hostIface("group", &hostGroup{curveP384}))
	case "github.com/cloudflare/circl/group.Ristretto255":
		return newCell(c.hostIface("group", &hostGroup{curveR255}))
	case "github.com/cloudflare/circl/group.ErrUnmarshal":
		return newCell(c.hostErrVal("group: error unmarshaling"))
	case "github.com/cloudflare/circl/group.ErrType":
		return newCell(c.hostErrVal("group: type mismatch"))
	case "crypto/rand.Reader":
		return newCell(c.hostIface("reader", &hostReader{}))
	case "io.EOF":
		return newCell(c.hostErrVal("EOF"))
	case "io.ErrUnexpectedEOF":
		return newCell(c.hostErrVal("unexpected EOF"))
	case "os.Stdout", "os.Stderr":
		return newCell((*value)(nil))
	}
	return nil
}
