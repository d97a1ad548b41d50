package main

import (
	"fmt"
	"math/big"
	"strings"
)

var intrTab = map[string]intrinsic{}

func reg(name string, f intrinsic) {
	if strings.Contains(name, "/verifrt.") && !strings.HasSuffix(name, ".Thorough") {
		// The harness vocabulary has effects on the path: never speculated.
		g := f
		f = func(c *Ctx, a []value) value {
			if c.spec > 0 {
				panic(specAbort{"harness call"})
			}
			return g(c, a)
		}
	}
	intrTab[name] = f
}

// ---------------------------------------------------------------- math/big

func (c *Ctx) nilDeref() {
	c.panicStr("invalid memory address or nil pointer dereference")
}

// bigArg reads a *big.Int argument.
func (c *Ctx) bigArg(v value) *Poly {
	p, ok := v.(*value)
	if !ok {
		if v == nil {
			c.nilDeref()
		}
		c.unsupported(fmt.Sprintf("big.Int argument %T", v))
	}
	if p == nil {
		c.nilDeref()
	}
	q, ok := (*p).(*Poly)
	if !ok {
		c.unsupported(fmt.Sprintf("big.Int holding %T", *p))
	}
	return q
}

func (c *Ctx) bigSet(z value, p *Poly) value {
	zp, ok := z.(*value)
	if !ok || zp == nil {
		c.nilDeref()
	}
	c.set(zp, p)
	return z
}

// modInverse inverts p modulo n; ok=false when there is no inverse.
func (c *Ctx) modInverse(p *Poly, n *big.Int) (*Poly, bool) {
	an := new(big.Int).Abs(n)
	f := c.modN(p, an)
	if f.isConst() {
		r := new(big.Int).ModInverse(f.constVal(), an)
		if r == nil {
			return nil, false
		}
		out := pConst(r)
		if q := safePrime(an); q != nil && an.BitLen() > 250 {
			if d := c.powDlog(f, an); d != nil {
				c.dlogTab[an.Text(62)+":"+r.Text(62)] = c.modN(pNeg(d), q)
			}
		}
		return out, true
	}
	if an.BitLen() > 250 {
		if d := c.powDlog(f, an); d != nil {
			return c.mkPow(an, pNeg(d)), true
		}
	}
	if c.branch(c.zmod(f, an)) {
		return nil, false
	}
	if iv := c.monoInv(f, an); iv != nil {
		return c.mkMod(iv, an), true
	}
	a := c.mkAtom("v:"+an.Text(62)+":"+f.Key(), func() *Atom {
		return &Atom{kind: aFn, name: "inv", args: []*Poly{f}, m: an, lo: one, hi: new(big.Int).Sub(an, one), generic: c.polyGeneric(f)}
	})
	c.note("modular inverse of a compound symbolic value kept uninterpreted")
	return c.atomPoly(a), true
}

// qrPred: v (nonzero mod p) is a square modulo the safe prime p.
func (c *Ctx) qrPred(v *Poly, p *big.Int) *Pred {
	if v.isConst() {
		return boolPred(big.Jacobi(v.constVal(), p) == 1)
	}
	if c.powDlog(v, p) != nil {
		return tTrue
	}
	f := c.modN(v, p)
	if c.powDlog(f, p) != nil {
		return tTrue
	}
	k := f.Key() + p.Text(62)
	return &Pred{op: pVar, smt: fmt.Sprintf("qr_%x", shortHash(k)), key: "V:qr" + k}
}

func (c *Ctx) isNonNeg(p *Poly) bool {
	b := c.bounds(p)
	if b.lo != nil && b.lo.Sign() >= 0 {
		return true
	}
	return c.branch(c.le(pInt(0), p))
}

func (c *Ctx) absPoly(p *Poly) *Poly {
	if c.isNonNeg(p) {
		return p
	}
	return pNeg(p)
}

func (c *Ctx) divisor(p *Poly) *big.Int {
	if !p.isConst() {
		if c.branch(c.eq(p, pInt(0))) {
			c.divZero()
		}
		p = pConst(c.concretize(p, c.H.enumMax()))
	}
	d := p.constVal()
	if d.Sign() == 0 {
		c.divZero()
	}
	return d
}

func (c *Ctx) divZero() {
	panic(targetPanic{v: c.strIface("division by zero"), msg: "division by zero"})
}

// bitLen is the bit length of |p| as a polynomial.
func (c *Ctx) bitLen(p *Poly) *Poly {
	if p.isConst() {
		return pInt(int64(p.constVal().BitLen()))
	}
	p = c.absPoly(p)
	b := c.bounds(p)
	lo := zero
	var hi *big.Int
	if b.lo != nil && b.lo.Sign() >= 0 {
		lo = big.NewInt(int64(b.lo.BitLen()))
	}
	if b.hi != nil {
		hi = big.NewInt(int64(b.hi.BitLen()))
	}
	if hi != nil && hi.Cmp(lo) == 0 {
		return pConst(lo)
	}
	if hi == nil {
		hi = big.NewInt(1 << 16)
	}
	a := c.mkAtom("L:"+p.Key(), func() *Atom {
		return &Atom{kind: aBlen, p: p, idx: 1, lo: lo, hi: hi}
	})
	return c.atomPoly(a)
}

func (c *Ctx) decVal(p *Poly) value {
	if p.isConst() {
		return p.constVal().String()
	}
	return ropeTok(c.tokDec(p))
}

// parseInt reads an integer from a string value.
func (c *Ctx) parseInt(s value, base int) (*Poly, bool) {
	r := strRope(s)
	if r == nil {
		r = c.bytesRope(s)
	}
	if t, ok := r.concrete(); ok {
		v, ok := new(big.Int).SetString(t, base)
		if !ok {
			return nil, false
		}
		return pConst(v), true
	}
	if len(r.segs) == 1 && r.segs[0].tok.kind == "dec" && (base == 10 || base == 0) {
		return r.segs[0].tok.p, true
	}
	c.unsupported("integer from symbolic text")
	return nil, false
}

func init() {
	const I = "(*math/big.Int)."
	reg("math/big.NewInt", func(c *Ctx, a []value) value { return newCell(c.toPoly(a[0])) })
	reg(I+"SetInt64", func(c *Ctx, a []value) value { return c.bigSet(a[0], c.toPoly(a[1])) })
	reg(I+"SetUint64", func(c *Ctx, a []value) value { return c.bigSet(a[0], c.toPoly(a[1])) })
	reg(I+"Set", func(c *Ctx, a []value) value {
		if a[0].(*value) != nil && a[0].(*value) == a[1].(*value) {
			return a[0]
		}
		return c.bigSet(a[0], c.bigArg(a[1]))
	})
	bin := func(n string, f func(c *Ctx, x, y *Poly) *Poly) {
		reg(I+n, func(c *Ctx, a []value) value {
			x := c.bigArg(a[1])
			y := c.bigArg(a[2])
			return c.bigSet(a[0], f(c, x, y))
		})
	}
	bin("Add", func(c *Ctx, x, y *Poly) *Poly { return pAdd(x, y) })
	bin("Sub", func(c *Ctx, x, y *Poly) *Poly { return pSub(x, y) })
	bin("Mul", func(c *Ctx, x, y *Poly) *Poly { return c.pMul(x, y) })
	euDiv := func(c *Ctx, x *Poly, d *big.Int) *Poly {
		if d.Sign() < 0 {
			return pNeg(c.mkDiv(x, new(big.Int).Neg(d)))
		}
		return c.mkDiv(x, d)
	}
	bin("Div", func(c *Ctx, x, y *Poly) *Poly { return euDiv(c, x, c.divisor(y)) })
	bin("Mod", func(c *Ctx, x, y *Poly) *Poly { return c.mkMod(x, new(big.Int).Abs(c.divisor(y))) })
	reg(I+"DivMod", func(c *Ctx, a []value) value {
		x, y := c.bigArg(a[1]), c.bigArg(a[2])
		d := c.divisor(y)
		q, m := euDiv(c, x, d), c.mkMod(x, new(big.Int).Abs(d))
		c.bigSet(a[0], q)
		c.bigSet(a[3], m)
		return tuple{a[0], a[3]}
	})
	bin("Quo", func(c *Ctx, x, y *Poly) *Poly { return c.truncDiv(x, c.divisor(y), false) })
	bin("Rem", func(c *Ctx, x, y *Poly) *Poly { return c.truncDiv(x, c.divisor(y), true) })
	reg(I+"QuoRem", func(c *Ctx, a []value) value {
		x, y := c.bigArg(a[1]), c.bigArg(a[2])
		d := c.divisor(y)
		q, m := c.truncDiv(x, d, false), c.truncDiv(x, d, true)
		c.bigSet(a[0], q)
		c.bigSet(a[3], m)
		return tuple{a[0], a[3]}
	})
	reg(I+"Neg", func(c *Ctx, a []value) value { return c.bigSet(a[0], pNeg(c.bigArg(a[1]))) })
	reg(I+"Abs", func(c *Ctx, a []value) value { return c.bigSet(a[0], c.absPoly(c.bigArg(a[1]))) })
	reg(I+"Cmp", func(c *Ctx, a []value) value {
		if a[0].(*value) == a[1].(*value) {
			return int64(0)
		}
		return c.intVal(c.cmpPoly(c.bigArg(a[0]), c.bigArg(a[1])), true)
	})
	reg(I+"CmpAbs", func(c *Ctx, a []value) value {
		return c.intVal(c.cmpPoly(c.absPoly(c.bigArg(a[0])), c.absPoly(c.bigArg(a[1]))), true)
	})
	reg(I+"Sign", func(c *Ctx, a []value) value { return c.intVal(c.signPoly(c.bigArg(a[0])), true) })
	reg(I+"Exp", func(c *Ctx, a []value) value {
		x, y := c.bigArg(a[1]), c.bigArg(a[2])
		var m *big.Int
		if mp := a[3].(*value); mp != nil {
			mm := c.bigArg(a[3])
			if !mm.isConst() {
				c.unsupported("Exp with symbolic modulus")
			}
			m = new(big.Int).Abs(mm.constVal())
		}
		if m == nil || m.Sign() == 0 {
			if !y.isConst() {
				yb := c.bounds(y)
				if yb.lo == nil || yb.hi == nil || new(big.Int).Sub(yb.hi, yb.lo).BitLen() > 12 {
					c.unsupported("symbolic exponent without modulus")
				}
				y = pConst(c.concretize(y, 64))
			}
			return c.bigSet(a[0], c.mkExp(x, y, nil))
		}
		if q := safePrime(m); q != nil && m.BitLen() > 250 && y.isConst() && y.constVal().Cmp(q) == 0 && !x.isConst() && c.powDlog(x, m) == nil {
			z := c.zmod(x, m)
			r := c.ite(c.qrPred(x, m), pInt(1), pConst(new(big.Int).Sub(m, one)))
			return c.bigSet(a[0], c.ite(z, pInt(0), r))
		}
		if !x.isConst() || !y.isConst() {
			// a negative exponent of zero has no inverse
			if yb := c.bounds(y); c.powDlog(x, m) == nil && (yb.lo == nil || yb.lo.Sign() < 0) {
				if c.branch(c.lt(y, pInt(0))) {
					iv, ok := c.modInverse(x, m)
					if !ok {
						return (*value)(nil)
					}
					return c.bigSet(a[0], c.mkExp(iv, pNeg(y), m))
				}
			}
		} else if y.constVal().Sign() < 0 && new(big.Int).ModInverse(x.constVal(), m) == nil {
			return (*value)(nil)
		}
		return c.bigSet(a[0], c.mkExp(x, y, m))
	})
	reg(I+"ModInverse", func(c *Ctx, a []value) value {
		x, n := c.bigArg(a[1]), c.bigArg(a[2])
		if !n.isConst() {
			c.unsupported("ModInverse with symbolic modulus")
		}
		iv, ok := c.modInverse(x, n.constVal())
		if !ok {
			return (*value)(nil)
		}
		return c.bigSet(a[0], iv)
	})
	reg(I+"GCD", func(c *Ctx, a []value) value {
		x, y := c.bigArg(a[3]), c.bigArg(a[4])
		if !x.isConst() || !y.isConst() {
			c.unsupported("GCD of symbolic values")
		}
		var u, v *big.Int
		if a[1].(*value) != nil {
			u = new(big.Int)
		}
		if a[2].(*value) != nil {
			v = new(big.Int)
		}
		g := new(big.Int).GCD(u, v, x.constVal(), y.constVal())
		if u != nil {
			c.bigSet(a[1], pConst(u))
		}
		if v != nil {
			c.bigSet(a[2], pConst(v))
		}
		return c.bigSet(a[0], pConst(g))
	})
	reg(I+"SetString", func(c *Ctx, a []value) value {
		p, ok := c.parseInt(a[1], int(c.concInt(a[2], "base")))
		if !ok {
			return tuple{(*value)(nil), false}
		}
		return tuple{c.bigSet(a[0], p), true}
	})
	reg(I+"SetBytes", func(c *Ctx, a []value) value { return c.bigSet(a[0], c.ropeUint(c.bytesRope(a[1]))) })
	reg(I+"Bytes", func(c *Ctx, a []value) value {
		p := c.bigArg(a[0])
		if p.isConst() {
			return c.bytesVal(ropeStr(string(p.constVal().Bytes())))
		}
		return ropeTok(c.tokVB(c.absPoly(p)))
	})
	reg(I+"FillBytes", func(c *Ctx, a []value) value {
		p := c.absPoly(c.bigArg(a[0]))
		buf, ok := a[1].([]value)
		if !ok {
			c.unsupported("FillBytes into an opaque slice")
		}
		if !c.branch(c.lt(p, pConst(new(big.Int).Lsh(one, uint(8*len(buf)))))) {
			panic(targetPanic{v: c.strIface("math/big: buffer too small to fit value"), msg: "math/big: buffer too small to fit value"})
		}
		for i, v := range c.cells(c.beRope(p, len(buf))) {
			c.set(&buf[i], v)
		}
		return buf
	})
	str := func(c *Ctx, v value) value {
		if p := v.(*value); p == nil {
			return "<nil>"
		}
		return c.decVal(c.bigArg(v))
	}
	reg(I+"String", func(c *Ctx, a []value) value { return str(c, a[0]) })
	reg(I+"Text", func(c *Ctx, a []value) value {
		b := int(c.concInt(a[1], "base"))
		if p := a[0].(*value); p == nil {
			return "<nil>"
		}
		p := c.bigArg(a[0])
		if p.isConst() {
			return p.constVal().Text(b)
		}
		if b == 10 {
			return str(c, a[0])
		}
		return ropeTok(&Tok{kind: fmt.Sprintf("dec%d", b), p: p, n: -1, key: p.Key()})
	})
	reg(I+"Append", func(c *Ctx, a []value) value {
		return c.bytesVal(ropeCat(c.bytesRope(a[1]), strRope(str(c, a[0]))))
	})
	reg(I+"Int64", func(c *Ctx, a []value) value { return c.wrap(c.bigArg(a[0]), 64, true) })
	reg(I+"Uint64", func(c *Ctx, a []value) value { return c.wrap(c.bigArg(a[0]), 64, false) })
	inR := func(c *Ctx, p *Poly, lo, hi *big.Int) value {
		return c.boolVal(mkAnd(c.le(pConst(lo), p), c.le(p, pConst(hi))))
	}
	reg(I+"IsInt64", func(c *Ctx, a []value) value {
		h := new(big.Int).Lsh(one, 63)
		return inR(c, c.bigArg(a[0]), new(big.Int).Neg(h), new(big.Int).Sub(h, one))
	})
	reg(I+"IsUint64", func(c *Ctx, a []value) value {
		return inR(c, c.bigArg(a[0]), zero, new(big.Int).Sub(new(big.Int).Lsh(one, 64), one))
	})
	reg(I+"BitLen", func(c *Ctx, a []value) value { return c.intVal(c.bitLen(c.bigArg(a[0])), true) })
	reg(I+"TrailingZeroBits", func(c *Ctx, a []value) value {
		p := c.bigArg(a[0])
		if p.isConst() {
			return uint64(p.constVal().TrailingZeroBits())
		}
		if !c.branch(mkNot(c.eq(p, pInt(0)))) {
			return uint64(0)
		}
		for k := uint(0); k < 1<<12; k++ {
			if c.branch(mkNot(c.eq(c.mkMod(p, new(big.Int).Lsh(one, k+1)), pInt(0)))) {
				return uint64(k)
			}
		}
		c.unsupported("TrailingZeroBits")
		return nil
	})
	reg(I+"Bit", func(c *Ctx, a []value) value {
		i := c.concInt(a[1], "bit index")
		if i < 0 {
			panic(targetPanic{v: c.strIface("negative bit index"), msg: "negative bit index"})
		}
		p := c.bigArg(a[0])
		return c.intVal(c.mkMod(c.mkDiv(p, new(big.Int).Lsh(one, uint(i))), two), false)
	})
	reg(I+"SetBit", func(c *Ctx, a []value) value {
		i := uint(c.concInt(a[2], "bit index"))
		p := c.bigArg(a[1])
		b := c.toPoly(a[3])
		w := new(big.Int).Lsh(one, i)
		cur := c.mkMod(c.mkDiv(p, w), two)
		return c.bigSet(a[0], pAdd(p, pScale(pSub(b, cur), w)))
	})
	reg(I+"Lsh", func(c *Ctx, a []value) value {
		return c.bigSet(a[0], pScale(c.bigArg(a[1]), new(big.Int).Lsh(one, uint(c.concInt(a[2], "shift")))))
	})
	reg(I+"Rsh", func(c *Ctx, a []value) value {
		return c.bigSet(a[0], c.mkDiv(c.bigArg(a[1]), new(big.Int).Lsh(one, uint(c.concInt(a[2], "shift")))))
	})
	bit := func(n string, f func(z, x, y *big.Int) *big.Int) {
		bin(n, func(c *Ctx, x, y *Poly) *Poly {
			if x.isConst() && y.isConst() {
				return pConst(f(new(big.Int), x.constVal(), y.constVal()))
			}
			if n == "And" {
				if x.isConst() {
					x, y = y, x
				}
				if y.isConst() {
					m := new(big.Int).Add(y.constVal(), one)
					if m.Sign() > 0 && new(big.Int).And(m, y.constVal()).Sign() == 0 {
						return c.mkMod(x, m)
					}
					if y.constVal().Sign() >= 0 && y.constVal().BitLen() <= 64 {
						acc := pInt(0)
						for i := 0; i < y.constVal().BitLen(); i++ {
							if y.constVal().Bit(i) == 1 {
								w := new(big.Int).Lsh(one, uint(i))
								acc = pAdd(acc, pScale(c.mkMod(c.mkDiv(x, w), two), w))
							}
						}
						return acc
					}
				}
			}
			// Set, clear or flip a few bits, one by one (two's complement, as in package big).
			if k := y; n == "Or" || n == "Xor" || n == "AndNot" {
				if n != "AndNot" && x.isConst() {
					x, k = y, x
				}
				if k.isConst() && k.constVal().Sign() >= 0 && k.constVal().BitLen() <= 64 {
					acc := x
					for i := 0; i < k.constVal().BitLen(); i++ {
						if k.constVal().Bit(i) == 0 {
							continue
						}
						w := new(big.Int).Lsh(one, uint(i))
						cur := c.mkMod(c.mkDiv(x, w), two)
						switch n {
						case "Or":
							acc = pAdd(acc, pScale(pSub(pInt(1), cur), w))
						case "Xor":
							acc = pAdd(acc, pScale(pSub(pInt(1), pScale(cur, two)), w))
						case "AndNot":
							acc = pSub(acc, pScale(cur, w))
						}
					}
					return acc
				}
			}
			c.unsupported("big.Int." + n + " of symbolic values")
			return nil
		})
	}
	bit("And", (*big.Int).And)
	bit("Or", (*big.Int).Or)
	bit("Xor", (*big.Int).Xor)
	bit("AndNot", (*big.Int).AndNot)
	reg(I+"Not", func(c *Ctx, a []value) value { return c.bigSet(a[0], pSub(pInt(-1), c.bigArg(a[1]))) })
	reg(I+"Sqrt", func(c *Ctx, a []value) value {
		p := c.bigArg(a[1])
		if !p.isConst() {
			c.unsupported("Sqrt")
		}
		return c.bigSet(a[0], pConst(new(big.Int).Sqrt(p.constVal())))
	})
	reg(I+"ModSqrt", func(c *Ctx, a []value) value {
		x, p := c.bigArg(a[1]), c.bigArg(a[2])
		if !p.isConst() || !x.isConst() {
			c.unsupported("ModSqrt of a symbolic value")
		}
		r := new(big.Int).ModSqrt(x.constVal(), p.constVal())
		if r == nil {
			return (*value)(nil)
		}
		return c.bigSet(a[0], pConst(r))
	})
	reg(I+"ProbablyPrime", func(c *Ctx, a []value) value {
		p := c.bigArg(a[0])
		if !p.isConst() {
			c.unsupported("ProbablyPrime")
		}
		return p.constVal().ProbablyPrime(int(c.concInt(a[1], "n")))
	})
	reg(I+"IsProbablyPrime", nil)
	delete(intrTab, I+"IsProbablyPrime")
	reg("math/big.Jacobi", func(c *Ctx, a []value) value {
		x, y := c.bigArg(a[0]), c.bigArg(a[1])
		if !y.isConst() {
			c.unsupported("Jacobi with symbolic modulus")
		}
		if y.constVal().Bit(0) == 0 {
			panic(targetPanic{v: c.strIface("big: invalid 2nd argument to Int.Jacobi: need odd integer"), msg: "big: invalid 2nd argument to Int.Jacobi"})
		}
		if x.isConst() {
			return int64(big.Jacobi(x.constVal(), y.constVal()))
		}
		m := y.constVal()
		if safePrime(m) == nil {
			c.unsupported("Jacobi of a symbolic value")
		}
		return c.intVal(c.ite(c.zmod(x, m), pInt(0), c.ite(c.qrPred(x, m), pInt(1), pInt(-1))), true)
	})
}
