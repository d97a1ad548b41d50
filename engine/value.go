package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is one of:
//
//	bool, *Pred                      booleans
//	int64, uint64, *Poly, *BV        machine integers (int64 for signed types,
//	                                 uint64 for unsigned ones when concrete)
//	*Poly                            contents of a big.Int
//	float64
//	string, *Rope                    strings; *Rope also as a []byte of unknown length
//	*value                           pointers
//	structure, array                 aggregates
//	[]value                          slices
//	*smap                            maps
//	iface                            interfaces
//	*ssa.Function, *closure, *hostFn functions
//	tuple                            multiple results
//	host objects (*hostElem, *hostGroup, *hostScalar, *hostHash, *hostBuf ...)
type value interface{}

type structure []value
type array []value
type tuple []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn  *ssa.Function
	env []value
}
type hostFn struct {
	name string
	f    func(c *Ctx, args []value) value
}
type hostObj interface {
	method(c *Ctx, name string, args []value) value
	typeName() string
}
type smap struct {
	m    map[string]mapEnt
	keys []string
	sym  bool // some key is symbolic
}
type mapEnt struct{ k, v value }

type mapIter struct {
	m *smap
	i int
}
type strIter struct {
	s string
	i int
}

type BV struct {
	e    string
	w    int
	vars []string
}

func isBig(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		if a, ok := t.(*types.Alias); ok {
			return isBig(types.Unalias(a))
		}
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == "math/big" && o.Name() == "Int"
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Pkg() != nil && o.Pkg().Path() == pkg && o.Name() == name
}

// leafTypes are struct types kept as one opaque cell holding a host object.
func (c *Ctx) leafZero(t types.Type) (value, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return nil, false
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return nil, false
	}
	switch o.Pkg().Path() + "." + o.Name() {
	case "math/big.Int":
		return pInt(0), true
	case "bytes.Buffer", "strings.Builder":
		return &Rope{}, true
	case "time.Time":
		return hostTime{}, true
	case "sync.Mutex", "sync.RWMutex", "sync.WaitGroup", "sync.Once":
		return structure{}, true
	case "sync.Map":
		return &smap{m: map[string]mapEnt{}}, true
	}
	return nil, false
}

type hostTime struct{}

func (c *Ctx) zero(t types.Type) value {
	if v, ok := c.leafZero(t); ok {
		return v
	}
	switch t := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case t.Info()&types.IsBoolean != 0:
			return false
		case t.Info()&types.IsString != 0:
			return ""
		case t.Info()&types.IsUnsigned != 0:
			return uint64(0)
		case t.Info()&types.IsInteger != 0:
			return int64(0)
		case t.Info()&types.IsFloat != 0:
			return float64(0)
		case t.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case t.Kind() == types.UntypedNil:
			return nil
		}
		c.unsupported("zero of " + t.String())
	case *types.Pointer:
		return (*value)(nil)
	case *types.Struct:
		s := make(structure, t.NumFields())
		for i := range s {
			s[i] = c.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, t.Len())
		for i := range a {
			a[i] = c.zero(t.Elem())
		}
		return a
	case *types.Slice:
		return []value(nil)
	case *types.Map:
		return (*smap)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Chan:
		return (*hostChan)(nil)
	case *types.Tuple:
		r := make(tuple, t.Len())
		for i := range r {
			r[i] = c.zero(t.At(i).Type())
		}
		return r
	}
	c.unsupported("zero of " + t.String())
	return nil
}

func copyVal(v value) value {
	switch v := v.(type) {
	case structure:
		r := make(structure, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case array:
		r := make(array, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

// ---------------------------------------------------------------- ropes

// Tok is an abstract byte string.
type Tok struct {
	kind string // fixed length: be, renc, hash, sym ; variable: dec, vb, json
	p    *Poly
	n    int // length, -1 if variable
	key  string
	cls  *CurveInfo
	ast  *JNode
	in   *Rope // hash input
}

type seg struct {
	s    string
	tok  *Tok
	a, b int
}
type Rope struct{ segs []seg }

func (t *Tok) Key() string { return t.kind + "<" + t.key + ">" }

func ropeStr(s string) *Rope {
	if s == "" {
		return &Rope{}
	}
	return &Rope{segs: []seg{{s: s}}}
}
func ropeTok(t *Tok) *Rope { return &Rope{segs: []seg{{tok: t, a: 0, b: t.n}}} }

func ropeCat(rs ...*Rope) *Rope {
	out := &Rope{}
	for _, r := range rs {
		for _, s := range r.segs {
			out.push(s)
		}
	}
	return out
}
func (r *Rope) push(s seg) {
	if s.tok == nil && s.s == "" {
		return
	}
	if n := len(r.segs); n > 0 {
		l := &r.segs[n-1]
		if l.tok == nil && s.tok == nil {
			l.s += s.s
			return
		}
		if l.tok != nil && s.tok != nil && l.tok.n >= 0 && l.tok.Key() == s.tok.Key() && l.b == s.a && s.a > 0 {
			l.b = s.b
			return
		}
	}
	r.segs = append(r.segs, s)
}

func (r *Rope) concrete() (string, bool) {
	var b strings.Builder
	for _, s := range r.segs {
		if s.tok != nil {
			return "", false
		}
		b.WriteString(s.s)
	}
	return b.String(), true
}

// fixedLen returns the length if known.
func (r *Rope) fixedLen() (int, bool) {
	n := 0
	for _, s := range r.segs {
		if s.tok == nil {
			n += len(s.s)
		} else if s.tok.n < 0 {
			return 0, false
		} else {
			n += s.b - s.a
		}
	}
	return n, true
}

func (r *Rope) Key() string {
	var b strings.Builder
	for _, s := range r.segs {
		if s.tok == nil {
			fmt.Fprintf(&b, "s%d:%s", len(s.s), s.s)
		} else {
			fmt.Fprintf(&b, "t[%s]%d:%d", s.tok.Key(), s.a, s.b)
		}
	}
	return b.String()
}

func (c *Ctx) tokBE(p *Poly, n int) *Tok {
	return &Tok{kind: "be", p: p, n: n, key: fmt.Sprintf("%d:%s", n, p.Key())}
}
func (c *Ctx) tokDec(p *Poly) *Tok { return &Tok{kind: "dec", p: p, n: -1, key: p.Key()} }
func (c *Ctx) tokVB(p *Poly) *Tok  { return &Tok{kind: "vb", p: p, n: -1, key: p.Key()} }

func (c *Ctx) byteAtom(t *Tok, i int) *Poly {
	if t.kind == "be" && t.p.isConst() {
		v := new(big.Int).Rsh(t.p.constVal(), uint(8*(t.n-1-i)))
		return pConst(v.And(v, big.NewInt(255)))
	}
	a := c.mkAtom(fmt.Sprintf("b:%s:%d", t.Key(), i), func() *Atom {
		return &Atom{kind: aByte, tok: t, idx: i, lo: zero, hi: big.NewInt(255)}
	})
	return c.atomPoly(a)
}

// cells materialises a fixed-length rope as byte cells.
func (c *Ctx) cells(r *Rope) []value {
	out := []value{}
	for _, s := range r.segs {
		if s.tok == nil {
			for i := 0; i < len(s.s); i++ {
				out = append(out, uint64(s.s[i]))
			}
			continue
		}
		if s.tok.n < 0 {
			c.unsupported("bytes of a variable-length value")
		}
		for i := s.a; i < s.b; i++ {
			p := c.byteAtom(s.tok, i)
			if p.isConst() {
				out = append(out, p.constVal().Uint64())
			} else {
				out = append(out, p)
			}
		}
	}
	return out
}

// bytesRope converts a []byte value (cells or rope) to a rope.
func (c *Ctx) bytesRope(v value) *Rope {
	switch v := v.(type) {
	case nil:
		return &Rope{}
	case *Rope:
		return v
	case string:
		return ropeStr(v)
	case []value:
		return c.cellsRope(v)
	case array:
		return c.cellsRope(v)
	case *symSlice:
		c.unsupported("symbolic slice as bytes")
	}
	c.unsupported(fmt.Sprintf("bytesRope of %T", v))
	return nil
}

func (c *Ctx) cellsRope(v []value) *Rope {
	r := &Rope{}
	var buf []byte
	flush := func() {
		if len(buf) > 0 {
			r.push(seg{s: string(buf)})
			buf = nil
		}
	}
	for _, x := range v {
		switch x := x.(type) {
		case uint64:
			buf = append(buf, byte(x))
		case *Poly:
			flush()
			a := c.single(x)
			if a == nil || a.kind != aByte {
				// arbitrary symbolic byte
				r.push(seg{tok: c.tokBE(x, 1), a: 0, b: 1})
				continue
			}
			r.push1(seg{tok: a.tok, a: a.idx, b: a.idx + 1})
		default:
			c.unsupported(fmt.Sprintf("byte cell %T", x))
		}
	}
	flush()
	return r
}

// push1 merges single token bytes into runs.
func (r *Rope) push1(s seg) {
	if n := len(r.segs); n > 0 {
		l := &r.segs[n-1]
		if l.tok != nil && l.tok.n >= 0 && l.b == s.a && l.tok.Key() == s.tok.Key() {
			l.b = s.b
			return
		}
	}
	r.segs = append(r.segs, s)
}

// ropeUint interprets a rope as a big-endian unsigned integer.
func (c *Ctx) ropeUint(r *Rope) *Poly {
	if len(r.segs) == 1 && r.segs[0].tok != nil && r.segs[0].tok.n < 0 {
		t := r.segs[0].tok
		if t.kind == "vb" {
			return t.p
		}
		c.unsupported("integer from " + t.kind)
	}
	acc := pInt(0)
	for i, s := range r.segs {
		if s.tok != nil && s.tok.n < 0 {
			if s.tok.kind == "vb" && i == len(r.segs)-1 && acc.isZero() {
				return s.tok.p
			}
			c.unsupported("integer from mixed variable-length bytes")
		}
		n := len(s.s)
		var v *Poly
		if s.tok == nil {
			v = pConst(new(big.Int).SetBytes([]byte(s.s)))
		} else {
			n = s.b - s.a
			v = c.tokPart(s.tok, s.a, s.b)
		}
		acc = pAdd(pScale(acc, new(big.Int).Lsh(one, uint(8*n))), v)
	}
	return acc
}

// tokPart is the big-endian integer value of bytes [a,b) of a fixed token.
func (c *Ctx) tokPart(t *Tok, a, b int) *Poly {
	switch t.kind {
	case "be":
		v := t.p
		if b < t.n {
			v = c.mkDiv(v, new(big.Int).Lsh(one, uint(8*(t.n-b))))
		}
		if a > 0 {
			v = c.mkMod(v, new(big.Int).Lsh(one, uint(8*(b-a))))
		}
		return v
	case "hash", "renc", "sym":
		class := cHash
		if t.kind == "sym" {
			class = cNondet
		}
		if t.kind == "renc" && !c.polyGeneric(t.p) {
			class = cNondet
		}
		h := new(big.Int).Lsh(one, uint(8*(b-a)))
		return c.sym(fmt.Sprintf("%s(%x)[%d:%d]", t.kind, shortHash(t.key), a, b), class, zero, h.Sub(h, one))
	}
	c.unsupported("tokPart " + t.kind)
	return nil
}

func shortHash(s string) string {
	p := &Poly{t: map[string]*big.Int{s: one}}
	return p.Key()[:8]
}

// strRope views a string value as a rope.
func strRope(v value) *Rope {
	switch v := v.(type) {
	case string:
		return ropeStr(v)
	case *Rope:
		return v
	}
	return nil
}

func ropeVal(r *Rope) value {
	if s, ok := r.concrete(); ok {
		return s
	}
	return r
}

// bytesVal turns a rope into a []byte value.
func (c *Ctx) bytesVal(r *Rope) value {
	if _, ok := r.fixedLen(); ok {
		return c.cells(r)
	}
	return r
}

// ropeEq is equality of two byte strings.
// ropeLess orders strings. The order of symbolic strings is left open, apart
// from being antisymmetric and strict: replays settle whether it can be as assumed.
func (c *Ctx) ropeLess(a, b *Rope) *Pred {
	x, okx := a.concrete()
	y, oky := b.concrete()
	if okx && oky {
		if x < y {
			return tTrue
		}
		return tFalse
	}
	ka, kb := a.Key(), b.Key()
	if ka == kb {
		return tFalse
	}
	swapped := kb < ka
	if swapped {
		ka, kb = kb, ka
	}
	at := c.mkAtom("slt:"+fmt.Sprint(len(ka))+":"+ka+kb, func() *Atom {
		return &Atom{kind: aFn, name: "less", lo: zero, hi: one}
	})
	less := c.eq(c.atomPoly(at), pInt(1))
	if swapped {
		less = mkNot(less)
	}
	return mkAnd(mkNot(c.ropeEq(a, b)), less)
}

func (c *Ctx) ropeEq(a, b *Rope) *Pred {
	if a.Key() == b.Key() {
		return tTrue
	}
	la, oka := a.fixedLen()
	lb, okb := b.fixedLen()
	if oka && okb {
		if la != lb {
			return tFalse
		}
		// cut at common boundaries
		cuts := map[int]bool{0: true, la: true}
		for _, r := range []*Rope{a, b} {
			n := 0
			for _, s := range r.segs {
				if s.tok == nil {
					n += len(s.s)
				} else {
					n += s.b - s.a
				}
				cuts[n] = true
			}
		}
		var cs []int
		for k := range cuts {
			cs = append(cs, k)
		}
		sort.Ints(cs)
		var as []*Pred
		for i := 0; i+1 < len(cs); i++ {
			x, y := a.sub(cs[i], cs[i+1]), b.sub(cs[i], cs[i+1])
			as = append(as, c.segEq(x, y))
		}
		return mkAnd(as...)
	}
	if len(a.segs) == len(b.segs) {
		var as []*Pred
		for i := range a.segs {
			as = append(as, c.segEq(a.segs[i], b.segs[i]))
		}
		return mkAnd(as...)
	}
	if len(a.segs) > 0 && len(b.segs) > 0 {
		// different shapes of opaque values: treated as different
		c.note("rope shapes compared as different")
	}
	return tFalse
}

func (r *Rope) sub(i, j int) seg {
	n := 0
	for _, s := range r.segs {
		l := len(s.s)
		if s.tok != nil {
			l = s.b - s.a
		}
		if i >= n && j <= n+l {
			if s.tok == nil {
				return seg{s: s.s[i-n : j-n]}
			}
			return seg{tok: s.tok, a: s.a + i - n, b: s.a + j - n}
		}
		n += l
	}
	panic("rope sub")
}

func (c *Ctx) segEq(x, y seg) *Pred {
	if x.tok == nil && y.tok == nil {
		return boolPred(x.s == y.s)
	}
	if x.tok != nil && y.tok != nil {
		if x.a == y.a && x.b == y.b && x.tok.Key() == y.tok.Key() {
			return tTrue
		}
		if x.tok.kind == y.tok.kind {
			switch x.tok.kind {
			case "dec", "vb":
				return c.eq(x.tok.p, y.tok.p)
			case "be":
				if x.tok.n == y.tok.n && x.a == 0 && y.a == 0 && x.b == x.tok.n && y.b == y.tok.n {
					return c.eq(x.tok.p, y.tok.p)
				}
			case "renc":
				if x.a == 0 && y.a == 0 && x.b == 32 && y.b == 32 {
					return c.zmod(pSub(x.tok.p, y.tok.p), x.tok.cls.N)
				}
			case "hash":
				if x.tok.in != nil && y.tok.in != nil && x.tok.n == y.tok.n && x.a == y.a && x.b == y.b {
					return c.ropeEq(x.tok.in, y.tok.in)
				}
				return tFalse
			case "json":
				return c.jeq(x.tok.ast, y.tok.ast)
			default:
				if x.tok.in != nil && y.tok.in != nil {
					return c.ropeEq(x.tok.in, y.tok.in)
				}
				if x.tok.n < 0 && x.tok.p != nil && y.tok.p != nil {
					return c.eq(x.tok.p, y.tok.p)
				}
			}
		}
	}
	for _, t := range [][2]seg{{x, y}, {y, x}} {
		if t[0].tok != nil && t[0].tok.kind == "renc" && t[0].a == 0 && t[0].b == 32 && t[1].tok == nil && t[1].s == string(make([]byte, 32)) {
			return c.zmod(t[0].tok.p, t[0].tok.cls.N)
		}
	}
	// tok vs concrete or different kinds
	vx, okx := c.segUint(x)
	vy, oky := c.segUint(y)
	if okx && oky {
		return c.eq(vx, vy)
	}
	return tFalse
}

func (c *Ctx) segUint(s seg) (*Poly, bool) {
	if s.tok == nil {
		return pConst(new(big.Int).SetBytes([]byte(s.s))), true
	}
	if s.tok.n < 0 {
		return nil, false
	}
	return c.tokPart(s.tok, s.a, s.b), true
}

// symSlice is a byte slice arr[lo:hi] with symbolic lo.
type symSlice struct {
	arr    []value
	lo     *Poly
	hi     int
	loBase int // lo = loBase - blen(x)
	x      *Poly
}
