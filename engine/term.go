package main

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// ---------------------------------------------------------------- atoms

type atomKind int

const (
	aSym    atomKind = iota // named integer unknown
	aMod                    // p mod m
	aDiv                    // floor(p / m)
	aInd                    // 1 if pred else 0
	aPow                    // element of a safe-prime group: gen^p mod m
	aCoordX                 // x coordinate of the curve point with discrete log p (0 for identity)
	aCoordY
	aByte // byte idx of token
	aBlen // minimal byte length of p (p>=0)
	aCmp  // sign of p
	aFn   // uninterpreted function of polys (args)
)

type symClass int

const (
	cNondet symClass = iota // universally quantified input
	cRand                   // sampled by the code under test
	cHash                   // hash output
	cGen                    // discrete log of an independent generator
)

type Atom struct {
	id      int32
	kind    atomKind
	name    string
	class   symClass
	p       *Poly
	alt     *Poly // aMod: p with its signs kept, for expandMods
	m       *big.Int
	pred    *Pred
	tok     *Tok
	idx     int
	args    []*Poly
	lo, hi  *big.Int // nil = unbounded
	generic bool
	grp     *CurveInfo
	key     string
}

func (a *Atom) is01() bool {
	return a.lo != nil && a.hi != nil && a.lo.Sign() == 0 && a.hi.Cmp(one) == 0
}

var (
	zero = big.NewInt(0)
	one  = big.NewInt(1)
	two  = big.NewInt(2)
	mOne = big.NewInt(-1)
)

// Poly is a polynomial with integer coefficients over atoms; exponents may be
// negative (modular inverses). Immutable.
type Poly struct {
	t   map[string]*big.Int
	key string
}

func monoOf(id int32, e int32) string {
	var b [8]byte
	binary.BigEndian.PutUint32(b[0:], uint32(id))
	binary.BigEndian.PutUint32(b[4:], uint32(e))
	return string(b[:])
}

type factor struct{ id, e int32 }

func factors(m string) []factor {
	r := make([]factor, len(m)/8)
	for i := range r {
		r[i].id = int32(binary.BigEndian.Uint32([]byte(m[i*8:])))
		r[i].e = int32(binary.BigEndian.Uint32([]byte(m[i*8+4:])))
	}
	return r
}

func monoFrom(fs []factor) string {
	b := make([]byte, 0, len(fs)*8)
	for _, f := range fs {
		if f.e == 0 {
			continue
		}
		b = binary.BigEndian.AppendUint32(b, uint32(f.id))
		b = binary.BigEndian.AppendUint32(b, uint32(f.e))
	}
	return string(b)
}

func (c *Ctx) monoMul(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		ai, bi := a[i:i+4], b[j:j+4]
		if ai < bi {
			out = append(out, a[i:i+8]...)
			i += 8
		} else if ai > bi {
			out = append(out, b[j:j+8]...)
			j += 8
		} else {
			ea := int32(binary.BigEndian.Uint32([]byte(a[i+4 : i+8])))
			eb := int32(binary.BigEndian.Uint32([]byte(b[j+4 : j+8])))
			e := ea + eb
			if e > 1 {
				id := int32(binary.BigEndian.Uint32([]byte(ai)))
				if c.atoms[id].is01() {
					e = 1
				}
			}
			if e != 0 {
				out = append(out, ai...)
				out = binary.BigEndian.AppendUint32(out, uint32(e))
			}
			i += 8
			j += 8
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return string(out)
}

func pConst(v *big.Int) *Poly {
	p := &Poly{t: map[string]*big.Int{}}
	if v.Sign() != 0 {
		p.t[""] = v
	}
	return p
}
func pInt(v int64) *Poly { return pConst(big.NewInt(v)) }

func (p *Poly) isConst() bool {
	if len(p.t) == 0 {
		return true
	}
	if len(p.t) == 1 {
		_, ok := p.t[""]
		return ok
	}
	return false
}
func (p *Poly) constVal() *big.Int {
	if v, ok := p.t[""]; ok {
		return v
	}
	return zero
}
func (p *Poly) isZero() bool { return len(p.t) == 0 }

func (p *Poly) monos() []string {
	r := make([]string, 0, len(p.t))
	for m := range p.t {
		r = append(r, m)
	}
	sort.Strings(r)
	return r
}

func (p *Poly) Key() string {
	if p.key != "" {
		return p.key
	}
	h := sha256.New()
	var l [8]byte
	for _, m := range p.monos() {
		cs := p.t[m].Text(62)
		binary.BigEndian.PutUint32(l[0:], uint32(len(m)))
		binary.BigEndian.PutUint32(l[4:], uint32(len(cs)))
		h.Write(l[:])
		h.Write([]byte(m))
		h.Write([]byte(cs))
	}
	p.key = string(h.Sum(nil)[:20])
	return p.key
}

func (p *Poly) eq(q *Poly) bool {
	if p == q {
		return true
	}
	if len(p.t) != len(q.t) {
		return false
	}
	for m, a := range p.t {
		b, ok := q.t[m]
		if !ok || a.Cmp(b) != 0 {
			return false
		}
	}
	return true
}

func pAdd(p, q *Poly) *Poly {
	if len(q.t) > len(p.t) {
		p, q = q, p
	}
	if q.isZero() {
		return p
	}
	r := &Poly{t: make(map[string]*big.Int, len(p.t)+len(q.t))}
	for m, v := range p.t {
		r.t[m] = v
	}
	for m, v := range q.t {
		if o, ok := r.t[m]; ok {
			s := new(big.Int).Add(o, v)
			if s.Sign() == 0 {
				delete(r.t, m)
			} else {
				r.t[m] = s
			}
		} else {
			r.t[m] = v
		}
	}
	return r
}
func pScale(p *Poly, k *big.Int) *Poly {
	if k.Sign() == 0 {
		return pInt(0)
	}
	if k.Cmp(one) == 0 {
		return p
	}
	r := &Poly{t: make(map[string]*big.Int, len(p.t))}
	for m, v := range p.t {
		r.t[m] = new(big.Int).Mul(v, k)
	}
	return r
}
func pNeg(p *Poly) *Poly    { return pScale(p, mOne) }
func pSub(p, q *Poly) *Poly { return pAdd(p, pNeg(q)) }

func (c *Ctx) pMul(p, q *Poly) *Poly { return c.pMulMod(p, q, nil) }

func (c *Ctx) pMulMod(p, q *Poly, n *big.Int) *Poly {
	if p.isConst() {
		return redCoef(pScale(q, p.constVal()), n)
	}
	if q.isConst() {
		return redCoef(pScale(p, q.constVal()), n)
	}
	if len(p.t)*len(q.t) > 4000000 {
		c.unsupported("polynomial too large")
	}
	r := &Poly{t: make(map[string]*big.Int, len(p.t)+len(q.t))}
	var tmp big.Int
	for m1, v1 := range p.t {
		for m2, v2 := range q.t {
			m := c.monoMul(m1, m2)
			tmp.Mul(v1, v2)
			if o, ok := r.t[m]; ok {
				o.Add(o, &tmp)
			} else {
				r.t[m] = new(big.Int).Set(&tmp)
			}
		}
	}
	if n == nil {
		for m, v := range r.t {
			if v.Sign() == 0 {
				delete(r.t, m)
			}
		}
		return r
	}
	return redCoef(r, n)
}

// redCoef reduces coefficients modulo n (nil: nothing). The input's map is not
// modified.
func redCoef(p *Poly, n *big.Int) *Poly {
	if n == nil {
		return p
	}
	ok := true
	for _, v := range p.t {
		if v.Sign() <= 0 || v.Cmp(n) >= 0 {
			ok = false
			break
		}
	}
	if ok {
		return p
	}
	r := &Poly{t: make(map[string]*big.Int, len(p.t))}
	for m, v := range p.t {
		w := v
		if v.Sign() < 0 || v.Cmp(n) >= 0 {
			w = new(big.Int).Mod(v, n)
		}
		if w.Sign() != 0 {
			r.t[m] = w
		}
	}
	return r
}

func (c *Ctx) pPow(p *Poly, e int, n *big.Int) *Poly {
	r := pInt(1)
	for i := 0; i < e; i++ {
		r = c.pMulMod(r, p, n)
	}
	return r
}

func (c *Ctx) atomPoly(a *Atom) *Poly {
	return &Poly{t: map[string]*big.Int{monoOf(a.id, 1): one}}
}

// single returns the atom if p is exactly 1*atom.
func (c *Ctx) single(p *Poly) *Atom {
	if len(p.t) != 1 {
		return nil
	}
	for m, v := range p.t {
		if len(m) == 8 && v.Cmp(one) == 0 {
			f := factors(m)
			if f[0].e == 1 {
				return c.atoms[f[0].id]
			}
		}
	}
	return nil
}

// linAtom returns (k, atom, c0) if p = k*atom + c0.
func (c *Ctx) linAtom(p *Poly) (*big.Int, *Atom, *big.Int) {
	c0 := zero
	var at *Atom
	var k *big.Int
	for m, v := range p.t {
		if m == "" {
			c0 = v
			continue
		}
		if at != nil || len(m) != 8 {
			return nil, nil, nil
		}
		f := factors(m)
		if f[0].e != 1 {
			return nil, nil, nil
		}
		at = c.atoms[f[0].id]
		k = v
	}
	if at == nil {
		return nil, nil, nil
	}
	return k, at, c0
}

func (c *Ctx) mkAtom(key string, mk func() *Atom) *Atom {
	if a, ok := c.atomIdx[key]; ok {
		return a
	}
	a := mk()
	a.key = key
	a.id = int32(len(c.atoms))
	c.atoms = append(c.atoms, a)
	c.atomIdx[key] = a
	return a
}

func (c *Ctx) sym(name string, class symClass, lo, hi *big.Int) *Poly {
	a := c.mkAtom("s:"+name, func() *Atom {
		g := false
		if class == cGen {
			g = true
		} else if class != cNondet {
			if lo == nil || hi == nil || new(big.Int).Sub(hi, lo).BitLen() > 64 {
				g = true
			}
		}
		return &Atom{kind: aSym, name: name, class: class, lo: lo, hi: hi, generic: g}
	})
	return c.atomPoly(a)
}

func (c *Ctx) polyGeneric(p *Poly) bool {
	for m := range p.t {
		for _, f := range factors(m) {
			if c.atoms[f.id].generic {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- bounds

type ival struct{ lo, hi *big.Int }

func (c *Ctx) atomIval(a *Atom) ival { return ival{a.lo, a.hi} }

func ivMul(a, b ival) ival {
	if a.lo == nil || a.hi == nil || b.lo == nil || b.hi == nil {
		// keep sign information for nonnegative factors
		if a.lo != nil && b.lo != nil && a.lo.Sign() >= 0 && b.lo.Sign() >= 0 {
			return ival{new(big.Int).Mul(a.lo, b.lo), nil}
		}
		return ival{}
	}
	v := [4]*big.Int{new(big.Int).Mul(a.lo, b.lo), new(big.Int).Mul(a.lo, b.hi), new(big.Int).Mul(a.hi, b.lo), new(big.Int).Mul(a.hi, b.hi)}
	lo, hi := v[0], v[0]
	for _, x := range v[1:] {
		if x.Cmp(lo) < 0 {
			lo = x
		}
		if x.Cmp(hi) > 0 {
			hi = x
		}
	}
	return ival{lo, hi}
}

func (c *Ctx) bounds(p *Poly) ival {
	lo, hi := new(big.Int), new(big.Int)
	lok, hik := true, true
	if len(p.t) > 2000 {
		return ival{}
	}
	for m, v := range p.t {
		iv := ival{one, one}
		for _, f := range factors(m) {
			if f.e < 0 {
				return ival{}
			}
			ai := c.atomIval(c.atoms[f.id])
			for k := int32(0); k < f.e; k++ {
				iv = ivMul(iv, ai)
			}
			if f.e%2 == 0 && (iv.lo == nil || iv.lo.Sign() < 0) && len(m) == 8 {
				iv.lo = zero
			}
		}
		if v.Sign() < 0 {
			iv.lo, iv.hi = iv.hi, iv.lo
		}
		if iv.lo == nil {
			lok = false
		} else if lok {
			lo.Add(lo, new(big.Int).Mul(iv.lo, v))
		}
		if iv.hi == nil {
			hik = false
		} else if hik {
			hi.Add(hi, new(big.Int).Mul(iv.hi, v))
		}
		if !lok && !hik {
			return ival{}
		}
	}
	r := ival{}
	if lok {
		r.lo = lo
	}
	if hik {
		r.hi = hi
	}
	return r
}

// within reports whether p is provably in [lo,hi] by intervals.
func (c *Ctx) within(p *Poly, lo, hi *big.Int) bool {
	b := c.bounds(p)
	return b.lo != nil && b.hi != nil && b.lo.Cmp(lo) >= 0 && b.hi.Cmp(hi) <= 0
}

// ---------------------------------------------------------------- modular

// modN flattens p modulo n: nested reductions by multiples of n are dropped
// and coefficients reduced to [0,n).
func (c *Ctx) modN(p *Poly, n *big.Int) *Poly {
	need := false
scan:
	for m := range p.t {
		for i := 0; i < len(m); i += 8 {
			a := c.atoms[int32(binary.BigEndian.Uint32([]byte(m[i:i+4])))]
			if a.kind == aMod && new(big.Int).Mod(a.m, n).Sign() == 0 {
				need = true
				break scan
			}
		}
	}
	if !need {
		return redCoef(p, n)
	}
	r := &Poly{t: map[string]*big.Int{}}
	// group terms by the substituted atoms product to limit multiplications
	type grp struct {
		subs []factor
		rest *Poly
	}
	gs := map[string]*grp{}
	var order []string
	for _, m := range p.monos() {
		v := p.t[m]
		var subs, keep []factor
		for _, f := range factors(m) {
			a := c.atoms[f.id]
			if a.kind == aMod && new(big.Int).Mod(a.m, n).Sign() == 0 {
				if f.e > 0 {
					subs = append(subs, f)
					continue
				}
				if len(a.p.t) == 1 {
					subs = append(subs, f)
					continue
				}
			}
			keep = append(keep, f)
		}
		k := monoFrom(subs)
		g := gs[k]
		if g == nil {
			g = &grp{subs: subs, rest: &Poly{t: map[string]*big.Int{}}}
			gs[k] = g
			order = append(order, k)
		}
		g.rest.t[monoFrom(keep)] = v
	}
	for _, k := range order {
		g := gs[k]
		q := redCoef(g.rest, n)
		for _, f := range g.subs {
			a := c.atoms[f.id]
			sp := a.p
			if f.e > 0 {
				sp = c.modN(sp, n)
				for i := int32(0); i < f.e; i++ {
					q = c.pMulMod(q, sp, n)
				}
			} else {
				inv := c.monoInv(c.modN(sp, n), n)
				for i := int32(0); i < -f.e; i++ {
					q = c.pMulMod(q, inv, n)
				}
			}
		}
		r = pAdd(r, q)
	}
	return redCoef(r, n)
}

// monoInv inverts a one-term polynomial modulo prime n (symbols assumed
// invertible); nil if not possible.
func (c *Ctx) monoInv(p *Poly, n *big.Int) *Poly {
	if len(p.t) != 1 {
		return nil
	}
	for m, v := range p.t {
		iv := new(big.Int).ModInverse(v, n)
		if iv == nil {
			return nil
		}
		fs := factors(m)
		for i := range fs {
			fs[i].e = -fs[i].e
		}
		return &Poly{t: map[string]*big.Int{monoFrom(fs): iv}}
	}
	return nil
}

// pcBounds are the bounds of p, improved by comparisons of p with constants in
// the path condition.
func (c *Ctx) pcBounds(p *Poly) ival {
	b := c.bounds(p)
	if len(p.t) > 50 {
		return b
	}
	p0 := &Poly{t: make(map[string]*big.Int, len(p.t))}
	k := new(big.Int)
	for m, v := range p.t {
		if m == "" {
			k = v
		} else {
			p0.t[m] = v
		}
	}
	up := func(v *big.Int) {
		if b.hi == nil || v.Cmp(b.hi) < 0 {
			b.hi = v
		}
	}
	down := func(v *big.Int) {
		if b.lo == nil || v.Cmp(b.lo) > 0 {
			b.lo = v
		}
	}
	for _, q := range c.pc {
		neg := false
		if q.op == pNot {
			neg, q = true, q.args[0]
		}
		if q.op != pLe0 || len(q.p.t) < len(p0.t) || len(q.p.t) > len(p0.t)+1 {
			continue
		}
		sg := 0
		for m, v := range p0.t {
			w := q.p.t[m]
			if w == nil || w.CmpAbs(v) != 0 {
				sg = 0
				break
			}
			s := w.Sign() * v.Sign()
			if sg != 0 && sg != s {
				sg = 0
				break
			}
			sg = s
		}
		if sg == 0 {
			continue
		}
		d := q.p.t[""]
		if d == nil {
			d = zero
		} else if len(q.p.t) != len(p0.t)+1 {
			continue
		}
		// sg*p0 + d <= 0, or > 0 if negated
		switch {
		case sg > 0 && !neg:
			up(new(big.Int).Sub(k, d))
		case sg > 0:
			down(new(big.Int).Add(new(big.Int).Sub(k, d), one))
		case !neg:
			down(new(big.Int).Add(k, d))
		default:
			up(new(big.Int).Sub(new(big.Int).Add(k, d), one))
		}
	}
	return b
}

func (c *Ctx) mkMod(p *Poly, m *big.Int) *Poly {
	if p.isConst() {
		return pConst(new(big.Int).Mod(p.constVal(), m))
	}
	hi := new(big.Int).Sub(m, one)
	if c.within(p, zero, hi) {
		return p
	}
	f := c.modN(p, m)
	if f.isConst() {
		return f
	}
	if c.within(f, zero, hi) {
		return f
	}
	// shifted by a multiple of m
	b := c.pcBounds(p)
	if b.lo != nil && b.hi != nil {
		k := new(big.Int).Div(b.lo, m)
		if k.Cmp(new(big.Int).Div(b.hi, m)) == 0 {
			return pSub(p, pConst(new(big.Int).Mul(k, m)))
		}
	}
	if r := c.powMod(f, m); r != nil {
		return r
	}
	a := c.mkAtom("m:"+m.Text(62)+":"+f.Key(), func() *Atom {
		alt := &Poly{t: map[string]*big.Int{}}
		for mo, v := range p.t {
			q, r := new(big.Int), new(big.Int)
			if mo == "" {
				q.DivMod(v, m, r)
			} else {
				q.QuoRem(v, m, r)
			}
			if r.Sign() != 0 {
				alt.t[mo] = r
			}
		}
		return &Atom{kind: aMod, p: f, m: m, lo: zero, hi: hi, generic: c.polyGeneric(f), alt: alt}
	})
	return c.atomPoly(a)
}

func (c *Ctx) mkDiv(p *Poly, m *big.Int) *Poly {
	if p.isConst() {
		q := new(big.Int)
		q.DivMod(p.constVal(), m, new(big.Int))
		return pConst(q)
	}
	if m.Cmp(one) == 0 {
		return p
	}
	// p = m*a + b
	a := &Poly{t: map[string]*big.Int{}}
	b := &Poly{t: map[string]*big.Int{}}
	for mo, v := range p.t {
		q, r := new(big.Int), new(big.Int)
		if mo == "" {
			q.DivMod(v, m, r)
		} else {
			q.QuoRem(v, m, r) // keep the sign: the bounds stay tight
		}
		if q.Sign() != 0 {
			a.t[mo] = q
		}
		if r.Sign() != 0 {
			b.t[mo] = r
		}
	}
	if b.isZero() {
		return a
	}
	bb := c.bounds(b)
	if bb.lo != nil && bb.hi != nil {
		k := new(big.Int).Div(bb.lo, m)
		if k.Cmp(new(big.Int).Div(bb.hi, m)) == 0 {
			return pAdd(a, pConst(k))
		}
	}
	// retry on the unsplit polynomial (negative coefficients give better bounds)
	pb := c.bounds(p)
	if pb.lo != nil && pb.hi != nil {
		k := new(big.Int).Div(pb.lo, m)
		if k.Cmp(new(big.Int).Div(pb.hi, m)) == 0 {
			return pConst(k)
		}
	}
	// floor((floor(x/s)+k)/m) = floor((x+k*s)/(s*m))
	if k, s, c0 := c.linAtom(b); s != nil && s.kind == aDiv && k.Cmp(one) == 0 {
		return pAdd(a, c.mkDiv(pAdd(s.p, pConst(new(big.Int).Mul(c0, s.m))), new(big.Int).Mul(s.m, m)))
	}
	// shift by a multiple of m so that the quotient starts at 0
	if bb.lo != nil {
		l := new(big.Int).Div(bb.lo, m)
		if l.Sign() != 0 {
			a = pAdd(a, pConst(l))
			b = pSub(b, pConst(new(big.Int).Mul(l, m)))
			bb = c.bounds(b)
		}
	}
	at := c.mkAtom("d:"+m.Text(62)+":"+b.Key(), func() *Atom {
		x := &Atom{kind: aDiv, p: b, m: m, generic: c.polyGeneric(b)}
		if bb.lo != nil {
			x.lo = new(big.Int).Div(bb.lo, m)
		}
		if bb.hi != nil {
			x.hi = new(big.Int).Div(bb.hi, m)
		}
		if x.generic && x.lo != nil && x.hi != nil && new(big.Int).Sub(x.hi, x.lo).BitLen() <= 64 {
			x.generic = false
		}
		return x
	})
	return pAdd(a, c.atomPoly(at))
}

// expandMods rewrites every remainder of a small modulus as x - m*(x div m).
func (c *Ctx) expandMods(p *Poly) *Poly {
	out := &Poly{t: map[string]*big.Int{}}
	hit := false
	for m, v := range p.t {
		term := pConst(v)
		for _, f := range factors(m) {
			at := c.atoms[f.id]
			b := c.atomPoly(at)
			if at.kind == aMod && at.alt != nil && at.m.BitLen() <= 64 && f.e == 1 {
				hit = true
				b = pSub(at.alt, pScale(c.mkDiv(at.alt, at.m), at.m))
			} else if f.e != 1 {
				b = &Poly{t: map[string]*big.Int{monoFrom([]factor{f}): one}}
			}
			term = c.pMul(term, b)
		}
		out = pAdd(out, term)
	}
	if !hit {
		return p
	}
	return out
}

// ---------------------------------------------------------------- safe-prime groups

// safePrime returns q=(p-1)/2 if p is a safe prime of at least 64 bits.
func safePrime(p *big.Int) *big.Int {
	if p.BitLen() < 64 {
		return nil
	}
	k := p.Text(62)
	safeMu.Lock()
	defer safeMu.Unlock()
	if q, ok := safeTab[k]; ok {
		return q
	}
	var q *big.Int
	if p.Bit(0) == 1 && p.ProbablyPrime(5) {
		h := new(big.Int).Rsh(p, 1)
		if h.ProbablyPrime(5) {
			q = h
		}
	}
	safeTab[k] = q
	return q
}

// dlogConst gives a discrete log (mod q) to base 2 for a constant quadratic
// residue modulo safe prime p, or nil.
func (c *Ctx) dlogConst(v, p, q *big.Int) *Poly {
	w := new(big.Int).Mod(v, p)
	if w.Sign() == 0 {
		return nil
	}
	if w.Cmp(one) == 0 {
		return pInt(0)
	}
	if big.Jacobi(two, p) == 1 {
		if w.BitLen() < 20000 && new(big.Int).Lsh(one, uint(w.BitLen()-1)).Cmp(w) == 0 {
			return pInt(int64(w.BitLen() - 1))
		}
	}
	if d, ok := c.dlogTab[p.Text(62)+":"+w.Text(62)]; ok {
		return d
	}
	if big.Jacobi(w, p) != 1 {
		return nil
	}
	return c.sym("dlog_"+w.Text(62)[:min(20, len(w.Text(62)))]+fmt.Sprint(w.BitLen()), cGen, zero, new(big.Int).Sub(q, one))
}

func (c *Ctx) mkPow(p *big.Int, d *Poly) *Poly {
	q := safePrime(p)
	d = c.modN(d, q)
	if d.isConst() {
		v := new(big.Int).Exp(two, d.constVal(), p)
		c.dlogTab[p.Text(62)+":"+v.Text(62)] = d
		return pConst(v)
	}
	a := c.mkAtom("P:"+p.Text(62)+":"+d.Key(), func() *Atom {
		return &Atom{kind: aPow, p: d, m: p, lo: one, hi: new(big.Int).Sub(p, one), generic: c.polyGeneric(d)}
	})
	return c.atomPoly(a)
}

// powDlog returns the discrete log of v modulo safe prime p when v is a
// product of group elements (reduced or not), else nil.
func (c *Ctx) powDlog(v *Poly, p *big.Int) *Poly {
	q := safePrime(p)
	if q == nil || big.Jacobi(two, p) != 1 {
		return nil
	}
	if v.isConst() {
		return c.dlogConst(v.constVal(), p, q)
	}
	if len(v.t) != 1 {
		return nil
	}
	for m, k := range v.t {
		d := c.dlogConst(k, p, q)
		if d == nil {
			return nil
		}
		for _, f := range factors(m) {
			a := c.atoms[f.id]
			if a.kind != aPow || a.m.Cmp(p) != 0 {
				return nil
			}
			d = pAdd(d, pScale(a.p, big.NewInt(int64(f.e))))
		}
		return c.modN(d, q)
	}
	return nil
}

func (c *Ctx) powMod(f *Poly, m *big.Int) *Poly {
	if len(f.t) != 1 {
		return nil
	}
	for mo := range f.t {
		has := false
		for _, x := range factors(mo) {
			if c.atoms[x.id].kind == aPow {
				has = true
			}
		}
		if !has {
			return nil
		}
	}
	d := c.powDlog(f, m)
	if d == nil {
		return nil
	}
	return c.mkPow(m, d)
}

// mkExp computes b^e mod m (m>0 constant, m may be nil for plain power).
func (c *Ctx) mkExp(b, e *Poly, m *big.Int) *Poly {
	if m != nil && m.Sign() != 0 {
		if b.isConst() && e.isConst() {
			r := new(big.Int).Exp(b.constVal(), e.constVal(), m)
			if r == nil {
				c.unsupported("Exp without inverse")
			}
			if q := safePrime(m); q != nil && m.BitLen() > 250 {
				if d := c.powDlog(b, m); d != nil {
					dd := c.modN(pScale(d, e.constVal()), q)
					if k := m.Text(62) + ":" + r.Text(62); c.dlogTab[k] == nil {
						c.dlogTab[k] = dd
					}
				}
			}
			return pConst(r)
		}
		if m.BitLen() > 250 {
			if q := safePrime(m); q != nil {
				if d := c.powDlog(b, m); d != nil {
					return c.mkPow(m, c.pMul(d, e))
				}
			}
		}
		if e.isConst() {
			n := e.constVal()
			if n.IsInt64() && n.Int64() >= 0 && n.Int64() <= 64 {
				return c.mkMod(c.pPow(c.modN(b, m), int(n.Int64()), m), m)
			}
			if n.Sign() < 0 {
				iv := c.monoInv(c.modN(b, m), m)
				if iv != nil && n.IsInt64() && n.Int64() >= -64 {
					return c.mkMod(c.pPow(iv, int(-n.Int64()), m), m)
				}
			}
		}
		a := c.mkAtom("x:"+m.Text(62)+":"+b.Key()+":"+e.Key(), func() *Atom {
			return &Atom{kind: aFn, name: "exp", args: []*Poly{b, e}, m: m, lo: zero, hi: new(big.Int).Sub(m, one), generic: c.polyGeneric(b) || c.polyGeneric(e)}
		})
		return c.atomPoly(a)
	}
	if e.isConst() {
		n := e.constVal()
		if n.Sign() <= 0 {
			return pInt(1)
		}
		if b.isConst() && n.IsInt64() && n.Int64() < 1<<20 {
			return pConst(new(big.Int).Exp(b.constVal(), n, nil))
		}
		if n.IsInt64() && n.Int64() <= 16 {
			return c.pPow(b, int(n.Int64()), nil)
		}
	}
	c.unsupported("symbolic exponent without modulus")
	return nil
}

// ---------------------------------------------------------------- predicates

type predOp int

const (
	pTrue predOp = iota
	pFalse
	pNot
	pAnd
	pOr
	pEq0
	pLe0
	pZm
	pBV
	pVar
)

type Pred struct {
	op   predOp
	args []*Pred
	p    *Poly
	n    *big.Int
	smt  string
	vars []string
	key  string
}

var (
	tTrue  = &Pred{op: pTrue, key: "T"}
	tFalse = &Pred{op: pFalse, key: "F"}
)

func boolPred(b bool) *Pred {
	if b {
		return tTrue
	}
	return tFalse
}

func mkNot(a *Pred) *Pred {
	switch a.op {
	case pTrue:
		return tFalse
	case pFalse:
		return tTrue
	case pNot:
		return a.args[0]
	}
	return &Pred{op: pNot, args: []*Pred{a}, key: "!(" + a.key + ")"}
}

func mkNary(op predOp, unit, absorb *Pred, as []*Pred) *Pred {
	seen := map[string]bool{}
	var out []*Pred
	var add func(a *Pred) bool
	add = func(a *Pred) bool {
		if a.op == unit.op {
			return true
		}
		if a.op == absorb.op {
			return false
		}
		if a.op == op {
			for _, b := range a.args {
				if !add(b) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(a).key] {
			return false
		}
		if !seen[a.key] {
			seen[a.key] = true
			out = append(out, a)
		}
		return true
	}
	for _, a := range as {
		if !add(a) {
			return absorb
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	ks := make([]string, len(out))
	for i, a := range out {
		ks[i] = a.key
	}
	sort.Strings(ks)
	return &Pred{op: op, args: out, key: fmt.Sprintf("(%d %s)", op, strings.Join(ks, " "))}
}
func mkAnd(as ...*Pred) *Pred { return mkNary(pAnd, tTrue, tFalse, as) }
func mkOr(as ...*Pred) *Pred  { return mkNary(pOr, tFalse, tTrue, as) }

// normSign makes the sign of the first monomial's coefficient positive.
func normPrim(p *Poly, sign bool) *Poly {
	g := new(big.Int)
	for _, v := range p.t {
		g.GCD(nil, nil, g, new(big.Int).Abs(v))
		if g.Cmp(one) == 0 {
			break
		}
	}
	k := g
	if sign {
		ms := p.monos()
		if p.t[ms[len(ms)-1]].Sign() < 0 {
			k = new(big.Int).Neg(g)
		}
	}
	if k.Cmp(one) == 0 {
		return p
	}
	r := &Poly{t: make(map[string]*big.Int, len(p.t))}
	for m, v := range p.t {
		r.t[m] = new(big.Int).Quo(v, k)
	}
	return r
}

// genSplit groups p by monomials in generic atoms; coefficient polynomials
// contain only structured atoms.
func (c *Ctx) genSplit(p *Poly) map[string]*Poly {
	out := map[string]*Poly{}
	for m, v := range p.t {
		var g, s []factor
		for _, f := range factors(m) {
			if c.atoms[f.id].generic {
				g = append(g, f)
			} else {
				s = append(s, f)
			}
		}
		k := monoFrom(g)
		q := out[k]
		if q == nil {
			q = &Poly{t: map[string]*big.Int{}}
			out[k] = q
		}
		q.t[monoFrom(s)] = v
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// inCode tells whether the code under test is being executed, and not the
// harness.
func (c *Ctx) inCode() bool {
	for i := len(c.curFn) - 1; i >= 0; i-- {
		f := c.curFn[i]
		if f.repo && f.fn != nil && f.fn.Pos().IsValid() {
			return !strings.Contains(filepath.Base(f.fn.Prog.Fset.Position(f.fn.Pos()).Filename), "verif")
		}
	}
	return false
}

// eq0 builds the predicate p = 0 over the integers.
func (c *Ctx) eq0(p *Poly) *Pred {
	if p.isConst() {
		return boolPred(p.constVal().Sign() == 0)
	}
	b := c.bounds(p)
	if b.lo != nil && b.lo.Sign() > 0 || b.hi != nil && b.hi.Sign() < 0 {
		return tFalse
	}
	if r := c.lenCmp(p, true); r != nil {
		return r
	}
	if r := c.sumZero(p); r != nil {
		return r
	}
	if e := p; len(p.t) <= 300 {
		e = c.expandMods(p)
		if e != p && e.isConst() {
			return boolPred(e.constVal().Sign() == 0)
		}
	}
	p = normPrim(p, true)
	// constant term not divisible by content of the rest
	if k := p.t[""]; k != nil {
		g := new(big.Int)
		for m, v := range p.t {
			if m != "" {
				g.GCD(nil, nil, g, new(big.Int).Abs(v))
			}
		}
		if new(big.Int).Mod(k, g).Sign() != 0 {
			neg := false
			for m := range p.t {
				for _, f := range factors(m) {
					if f.e < 0 {
						neg = true
					}
				}
			}
			if !neg {
				return tFalse
			}
		}
	}
	if len(p.t) == 1 {
		for m := range p.t {
			var or []*Pred
			fs := factors(m)
			if len(fs) > 1 {
				for _, f := range fs {
					if f.e > 0 {
						or = append(or, c.eq0(c.atomPoly(c.atoms[f.id])))
					}
				}
				return mkOr(or...)
			}
		}
	}
	if k, a, c0 := c.linAtom(p); a != nil {
		// k*a + c0 = 0  =>  a = -c0/k
		v := new(big.Int).Quo(new(big.Int).Neg(c0), k)
		switch a.kind {
		case aCmp:
			switch v.Int64() {
			case 0:
				return c.eq0(a.p)
			case 1:
				return mkNot(c.le0(a.p))
			case -1:
				return c.le0(pAdd(a.p, pInt(1)))
			}
			return tFalse
		case aInd:
			if v.Sign() == 0 {
				return mkNot(a.pred)
			}
			if v.Cmp(one) == 0 {
				return a.pred
			}
			return tFalse
		case aPow:
			q := safePrime(a.m)
			d := c.dlogConst(v, a.m, q)
			if d == nil {
				return tFalse
			}
			return c.zmod(pSub(a.p, d), q)
		case aCoordX, aCoordY:
			if v.Sign() == 0 {
				return c.zmod(a.p, a.grp.N)
			}
			if d := a.grp.dlogByCoord(c, a.kind == aCoordX, v); d != nil {
				if a.kind == aCoordX {
					return mkOr(c.zmod(pSub(a.p, d), a.grp.N), c.zmod(pAdd(a.p, d), a.grp.N))
				}
				return c.zmod(pSub(a.p, d), a.grp.N)
			}
		case aMod:
			if v.Sign() < 0 || v.Cmp(a.m) >= 0 {
				return tFalse
			}
			if a.generic || c.polyGeneric(a.p) || v.Sign() == 0 && len(c.dropZeros(a.p, a.m).t) <= 1 && bigPrime(a.m) {
				return c.zmod(pSub(a.p, pConst(v)), a.m)
			}
		case aByte:
			if a.generic {
				return tFalse
			}
		case aSym:
			// A draw that the code compares with one value, as when it rejects
			// zero and draws again, differs from that value from then on.
			if q := (&Pred{op: pEq0, p: p, key: "E" + p.Key()}); a.class == cRand && a.generic && c.inCode() {
				if n := mkNot(q); !c.pcKeys[n.key] {
					if c.spec > 0 {
						panic(specAbort{"draw"})
					}
					c.noteGeneric()
					c.assume(n)
				}
				return tFalse
			}
		}
	}
	if q := c.coordEq(p); q != nil {
		return q
	}
	// a1 - a2 for opaque injective atoms
	if len(p.t) == 2 && p.t[""] == nil {
		var as []*Atom
		var ks []*big.Int
		for m, v := range p.t {
			if len(m) == 8 && factors(m)[0].e == 1 {
				as = append(as, c.atoms[factors(m)[0].id])
				ks = append(ks, v)
			}
		}
		if len(as) == 2 && ks[0].CmpAbs(ks[1]) == 0 && ks[0].Sign() != ks[1].Sign() && as[0].kind == as[1].kind {
			switch as[0].kind {
			case aPow:
				if as[0].m.Cmp(as[1].m) == 0 {
					return c.zmod(pSub(as[0].p, as[1].p), safePrime(as[0].m))
				}
			case aCoordX:
				if as[0].grp == as[1].grp {
					n := as[0].grp.N
					return mkOr(c.zmod(pSub(as[0].p, as[1].p), n), c.zmod(pAdd(as[0].p, as[1].p), n))
				}
			case aCoordY:
				if as[0].grp == as[1].grp {
					return c.zmod(pSub(as[0].p, as[1].p), as[0].grp.N)
				}
			}
		}
	}
	// Y(d1) + Y(d2) = P: opposite points
	if len(p.t) == 3 && p.t[""] != nil {
		var as []*Atom
		var ks []*big.Int
		for m, v := range p.t {
			if len(m) == 8 && factors(m)[0].e == 1 && c.atoms[factors(m)[0].id].kind == aCoordY {
				as = append(as, c.atoms[factors(m)[0].id])
				ks = append(ks, v)
			}
		}
		if len(as) == 2 && ks[0].Cmp(ks[1]) == 0 && as[0].grp == as[1].grp &&
			new(big.Int).Neg(new(big.Int).Mul(ks[0], as[0].grp.P)).Cmp(p.t[""]) == 0 {
			return c.zmod(pAdd(as[0].p, as[1].p), as[0].grp.N)
		}
	}
	// a = (q mod n) linear with unit coefficient: replace by congruence + range
	for m, v := range p.t {
		if len(m) == 8 && v.CmpAbs(one) == 0 {
			f := factors(m)[0]
			a := c.atoms[f.id]
			if f.e == 1 && a.kind == aMod && a.generic {
				rest := &Poly{t: map[string]*big.Int{}}
				for m2, v2 := range p.t {
					if m2 != m {
						rest.t[m2] = v2
					}
				}
				// v*a + rest = 0 -> a = -rest/v
				val := pNeg(pScale(rest, v))
				return mkAnd(c.zmod(pSub(a.p, val), a.m), c.le0(pNeg(val)), c.lt(val, pConst(a.m)))
			}
		}
	}
	sp := c.genSplit(p)
	if len(sp) > 1 || sp[""] == nil {
		c.noteGeneric()
		var as []*Pred
		for _, k := range sortedKeys(sp) {
			q := c.eq0(sp[k])
			if q == tFalse {
				return tFalse
			}
			as = append(as, q)
		}
		return mkAnd(as...)
	}
	return &Pred{op: pEq0, p: p, key: "E" + p.Key()}
}

// sumZero: a sum of nonnegative terms is zero (or at most zero) when all are.
func (c *Ctx) sumZero(p *Poly) *Pred {
	if len(p.t) < 2 || len(p.t) > 16 {
		return nil
	}
	for m, v := range p.t {
		if m == "" || v.Sign() < 0 {
			return nil
		}
		for _, f := range factors(m) {
			if a := c.atoms[f.id]; f.e < 0 || a.lo == nil || a.lo.Sign() < 0 {
				return nil
			}
		}
	}
	var as []*Pred
	for _, m := range p.monos() {
		as = append(as, c.eq0(&Poly{t: map[string]*big.Int{m: one}}))
	}
	return mkAnd(as...)
}

// lenUnit is the number of bits a length atom counts in.
func (a *Atom) lenUnit() int {
	if a.idx == 1 {
		return 1
	}
	return 8
}

// lenAtMost: the length a of its number is at most t.
func (c *Ctx) lenAtMost(a *Atom, t *big.Int) *Pred {
	if t.Sign() < 0 {
		return tFalse
	}
	if a.hi != nil && t.Cmp(a.hi) >= 0 {
		return tTrue
	}
	return c.le0(pAdd(pSub(a.p, pConst(new(big.Int).Lsh(one, uint(int64(a.lenUnit())*t.Int64())))), pInt(1)))
}

// lenCmp rewrites k*a + c0 <= 0 (or = 0), a a bit or byte length, to a
// comparison of the number itself.
func (c *Ctx) lenCmp(p *Poly, equal bool) *Pred {
	k, a, c0 := c.linAtom(p)
	if a == nil || a.kind != aBlen {
		return nil
	}
	if b := c.bounds(a.p); a.idx != 1 && (b.lo == nil || b.lo.Sign() < 0) {
		return nil
	}
	n := new(big.Int).Neg(c0)
	if equal {
		q, r := new(big.Int).QuoRem(n, k, new(big.Int))
		if r.Sign() != 0 {
			return tFalse
		}
		return mkAnd(c.lenAtMost(a, q), mkNot(c.lenAtMost(a, new(big.Int).Sub(q, one))))
	}
	if k.Sign() > 0 {
		return c.lenAtMost(a, floorDiv(n, k))
	}
	// a >= ceil(c0/-k)
	return mkNot(c.lenAtMost(a, floorDiv(new(big.Int).Sub(c0, one), new(big.Int).Neg(k))))
}

// floorDiv is the quotient rounded down, for a positive divisor.
func floorDiv(a, b *big.Int) *big.Int {
	q, _ := new(big.Int).DivMod(a, b, new(big.Int))
	return q
}

// le0 builds p <= 0.
func (c *Ctx) le0(p *Poly) *Pred {
	if p.isConst() {
		return boolPred(p.constVal().Sign() <= 0)
	}
	b := c.bounds(p)
	if b.lo != nil && b.lo.Sign() > 0 {
		return tFalse
	}
	if b.hi != nil && b.hi.Sign() <= 0 {
		return tTrue
	}
	if r := c.sumZero(p); r != nil {
		return r
	}
	if r := c.lenCmp(p, false); r != nil {
		return r
	}
	if k, a, c0 := c.linAtom(p); a != nil && (a.kind == aCmp || a.kind == aInd) {
		var or []*Pred
		mask := 0
		for s := int64(-1); s <= 1; s++ {
			if a.kind == aInd && s < 0 {
				continue
			}
			v := new(big.Int).Add(new(big.Int).Mul(k, big.NewInt(s)), c0)
			if v.Sign() <= 0 {
				mask |= 1 << uint(s+1)
				if a.kind == aInd {
					or = append(or, c.eq0(pSub(c.atomPoly(a), pInt(s))))
				}
			}
		}
		if a.kind == aInd {
			return mkOr(or...)
		}
		switch mask {
		case 0:
			return tFalse
		case 1:
			return c.le0(pAdd(a.p, pInt(1)))
		case 2:
			return c.eq0(a.p)
		case 3:
			return c.le0(a.p)
		case 4:
			return mkNot(c.le0(a.p))
		case 5:
			return mkNot(c.eq0(a.p))
		case 6:
			return mkNot(c.le0(pAdd(a.p, pInt(1))))
		}
		return tTrue
	}
	// one step away from a bound of the atom: an equation
	if k, a, c0 := c.linAtom(p); a != nil && (a.kind == aCoordX || a.kind == aCoordY || a.kind == aPow) {
		if k.Sign() < 0 && a.lo != nil {
			// a >= ceil(c0/-k)
			nk := new(big.Int).Neg(k)
			t := new(big.Int).Add(c0, new(big.Int).Sub(nk, one))
			t.Div(t, nk)
			if t.Cmp(new(big.Int).Add(a.lo, one)) == 0 {
				return mkNot(c.eq0(pSub(c.atomPoly(a), pConst(a.lo))))
			}
		} else if k.Sign() > 0 && a.lo != nil {
			t := new(big.Int).Div(new(big.Int).Neg(c0), k)
			if t.Cmp(a.lo) == 0 {
				return c.eq0(pSub(c.atomPoly(a), pConst(a.lo)))
			}
		}
	}
	p = normPrim(p, false)
	return &Pred{op: pLe0, p: p, key: "L" + p.Key()}
}
func (c *Ctx) lt(a, b *Poly) *Pred { return c.le0(pAdd(pSub(a, b), pInt(1))) }
func (c *Ctx) le(a, b *Poly) *Pred { return c.le0(pSub(a, b)) }
func (c *Ctx) eq(a, b *Poly) *Pred { return c.eq0(pSub(a, b)) }

// zmod builds p ≡ 0 (mod n), n prime.
func (c *Ctx) zmod(p *Poly, n *big.Int) *Pred {
	f := c.dropZeros(c.modN(p, n), n)
	if f.isConst() {
		return boolPred(f.constVal().Sign() == 0)
	}
	sp := c.genSplit(f)
	if len(sp) > 1 || sp[""] == nil {
		c.noteGeneric()
		var as []*Pred
		for _, k := range sortedKeys(sp) {
			q := c.zmodS(sp[k], n)
			if q == tFalse {
				return tFalse
			}
			as = append(as, q)
		}
		return mkAnd(as...)
	}
	return c.zmodS(f, n)
}

// zmodS: structured polynomial congruent to zero.
func (c *Ctx) zmodS(f *Poly, n *big.Int) *Pred {
	if f.isConst() {
		return boolPred(new(big.Int).Mod(f.constVal(), n).Sign() == 0)
	}
	// symmetric coefficients
	half := new(big.Int).Rsh(n, 1)
	s := &Poly{t: make(map[string]*big.Int, len(f.t))}
	for m, v := range f.t {
		if v.Cmp(half) > 0 {
			v = new(big.Int).Sub(v, n)
		}
		s.t[m] = v
	}
	// clear negative exponents by multiplying (atoms assumed invertible)
	minE := map[int32]int32{}
	for m := range s.t {
		for _, x := range factors(m) {
			if x.e < 0 && x.e < minE[x.id] {
				minE[x.id] = x.e
			}
		}
	}
	for id, e := range minE {
		s = c.pMulMod(s, &Poly{t: map[string]*big.Int{monoOf(id, -e): one}}, nil)
	}
	s = normPrim(s, true)
	if len(s.t) == 1 {
		for m := range s.t {
			fs := factors(m)
			var or []*Pred
			for _, x := range fs {
				a := c.atoms[x.id]
				or = append(or, c.zmAtom(a, n))
			}
			return mkOr(or...)
		}
	}
	nm := new(big.Int).Neg(n)
	if c.within(s, new(big.Int).Add(nm, one), new(big.Int).Sub(n, one)) {
		return c.eq0(s)
	}
	return &Pred{op: pZm, p: s, n: n, key: "Z" + n.Text(62) + ":" + s.Key()}
}

var bigPrimes sync.Map

// bigPrime: a prime of cryptographic size.
func bigPrime(m *big.Int) bool {
	if m.BitLen() < 200 {
		return false
	}
	k := m.Text(62)
	if v, ok := bigPrimes.Load(k); ok {
		return v.(bool)
	}
	v := m.ProbablyPrime(1)
	bigPrimes.Store(k, v)
	return v
}

func (c *Ctx) zmAtom(a *Atom, n *big.Int) *Pred {
	p := c.atomPoly(a)
	if c.within(p, new(big.Int).Add(new(big.Int).Neg(n), one), new(big.Int).Sub(n, one)) {
		return c.eq0(p)
	}
	return &Pred{op: pZm, p: p, n: n, key: "Z" + n.Text(62) + ":" + p.Key()}
}

// ind is the 0/1 polynomial of a predicate.
func (c *Ctx) ind(q *Pred) *Poly {
	switch q.op {
	case pTrue:
		return pInt(1)
	case pFalse:
		return pInt(0)
	case pNot:
		return pSub(pInt(1), c.ind(q.args[0]))
	case pEq0:
		if k, a, c0 := c.linAtom(q.p); a != nil && a.is01() {
			// k*a+c0=0
			if c0.Sign() == 0 {
				return pSub(pInt(1), c.atomPoly(a))
			}
			if new(big.Int).Add(k, c0).Sign() == 0 {
				return c.atomPoly(a)
			}
		}
	}
	a := c.mkAtom("i:"+q.key, func() *Atom {
		return &Atom{kind: aInd, pred: q, lo: zero, hi: one}
	})
	return c.atomPoly(a)
}

func (c *Ctx) ite(q *Pred, x, y *Poly) *Poly {
	if x.eq(y) {
		return x
	}
	return pAdd(y, c.pMul(c.ind(q), pSub(x, y)))
}

// cmpPoly is the three-way comparison result of a and b as a polynomial.
func (c *Ctx) cmpPoly(a, b *Poly) *Poly { return c.signPoly(pSub(a, b)) }
func (c *Ctx) signPoly(d *Poly) *Poly {
	if d.isConst() {
		return pInt(int64(d.constVal().Sign()))
	}
	bd := c.bounds(d)
	if bd.lo != nil && bd.lo.Sign() > 0 {
		return pInt(1)
	}
	if bd.hi != nil && bd.hi.Sign() < 0 {
		return pInt(-1)
	}
	lo, hi := mOne, one
	if bd.lo != nil && bd.lo.Sign() >= 0 {
		lo = zero
	}
	if bd.hi != nil && bd.hi.Sign() <= 0 {
		hi = zero
	}
	a := c.mkAtom("c:"+d.Key(), func() *Atom {
		return &Atom{kind: aCmp, p: d, lo: lo, hi: hi}
	})
	return c.atomPoly(a)
}

func (c *Ctx) showPoly(p *Poly, depth int) string {
	if len(p.t) == 0 {
		return "0"
	}
	var b strings.Builder
	for i, m := range p.monos() {
		if i > 0 {
			b.WriteString(" + ")
		}
		if i > 12 {
			fmt.Fprintf(&b, "...(%d terms)", len(p.t))
			break
		}
		v := p.t[m]
		if v.BitLen() > 80 {
			fmt.Fprintf(&b, "<%db>", v.BitLen())
		} else {
			b.WriteString(v.String())
		}
		for _, f := range factors(m) {
			fmt.Fprintf(&b, "*%s", c.showAtom(c.atoms[f.id], depth))
			if f.e != 1 {
				fmt.Fprintf(&b, "^%d", f.e)
			}
		}
	}
	return b.String()
}

func (c *Ctx) showAtom(a *Atom, depth int) string {
	if depth <= 0 && a.kind != aSym {
		return fmt.Sprintf("a%d", a.id)
	}
	sm := func(m *big.Int) string {
		if m.BitLen() > 64 {
			return fmt.Sprintf("<%db>", m.BitLen())
		}
		return m.String()
	}
	switch a.kind {
	case aSym:
		return a.name
	case aMod:
		return "(" + c.showPoly(a.p, depth-1) + " mod " + sm(a.m) + ")"
	case aDiv:
		return "(" + c.showPoly(a.p, depth-1) + " div " + sm(a.m) + ")"
	case aInd:
		return "[" + c.showPred(a.pred, depth-1) + "]"
	case aPow:
		return "g^(" + c.showPoly(a.p, depth-1) + ")"
	case aCoordX:
		return "X(" + c.showPoly(a.p, depth-1) + ")"
	case aCoordY:
		return "Y(" + c.showPoly(a.p, depth-1) + ")"
	case aCmp:
		return "sgn(" + c.showPoly(a.p, depth-1) + ")"
	case aByte:
		return fmt.Sprintf("byte%d(%s)", a.idx, a.tok.kind)
	}
	return a.name + fmt.Sprintf("#%d", a.id)
}

func (c *Ctx) showPred(q *Pred, depth int) string {
	switch q.op {
	case pTrue:
		return "true"
	case pFalse:
		return "false"
	case pNot:
		return "!" + c.showPred(q.args[0], depth)
	case pAnd, pOr:
		var s []string
		for i, a := range q.args {
			if i > 6 {
				s = append(s, fmt.Sprintf("...(%d)", len(q.args)))
				break
			}
			s = append(s, c.showPred(a, depth))
		}
		op := " & "
		if q.op == pOr {
			op = " | "
		}
		return "(" + strings.Join(s, op) + ")"
	case pEq0:
		return c.showPoly(q.p, depth) + " = 0"
	case pLe0:
		return c.showPoly(q.p, depth) + " <= 0"
	case pZm:
		return c.showPoly(q.p, depth) + " ≡ 0"
	case pBV:
		return q.smt
	}
	return q.smt
}
