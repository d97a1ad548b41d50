package main

import (
	"crypto/sha256"
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- harness vocabulary

func (c *Ctx) nondetName(v value) string {
	n := c.mustStr(v, "name")
	for _, r := range c.nondets {
		if r.Name == n {
			c.unsupported("harness reuses the name " + n)
		}
	}
	return n
}

// assertion decides q on this path: the solver must refute pc ∧ ¬q.
func (c *Ctx) assertion(label string, q *Pred) {
	if c.spec > 0 {
		panic(specAbort{"assert"})
	}
	c.asserts++
	if e := c.nextEvent('a'); e != nil {
		c.assume(q)
		if e.n == 2 {
			panic(pathEnd{"assertion cannot hold"})
		}
		return
	}
	res := 0
	switch c.known(q) {
	case 1:
		c.trivialA++
	default:
		r, m := c.check(true, mkNot(q))
		switch r {
		case resUnsat:
		default:
			res = 1
			c.candidate(label, m, r == resSat, q)
			if c.known(q) == 0 {
				res = 2
			}
		}
	}
	c.record(event{kind: 'a', n: res})
	if res == 2 {
		panic(pathEnd{"assertion cannot hold"})
	}
	c.assume(q)
}

// candidate records a possible violation for native replay.
func (c *Ctx) candidate(label string, m *Model, sure bool, q *Pred) {
	cc := &cexCand{label: label, model: m, log: append([]event{}, c.log...)}
	cc.replay = c.makeReplay(m)
	if q != nil {
		cc.detail = c.showPred(q, 4)
	}
	if !sure {
		cc.why = "solver answered unknown"
	}
	c.cands = append(c.cands, cc)
}

// makeReplay turns a model into native values.
func (c *Ctx) makeReplay(m *Model) *Replay {
	r := &Replay{Harness: c.H.Name, Vals: map[string]string{}}
	for _, n := range c.nondets {
		switch {
		case n.kind == "choice":
			r.Vals[n.Name] = n.p.constVal().String()
		case m == nil:
		case n.kind == "bool":
			if b, ok := m.bs[n.bv]; ok {
				if b {
					r.Vals[n.Name] = "1"
				} else {
					r.Vals[n.Name] = "0"
				}
			}
		case n.kind == "bv":
			if v, ok := m.bvs[n.bv]; ok {
				r.Vals[n.Name] = v.String()
			}
		case n.p != nil:
			if n.p.isConst() {
				r.Vals[n.Name] = n.p.constVal().String()
			} else if a := c.single(n.p); a != nil {
				if v, ok := m.ints[a.id]; ok {
					r.Vals[n.Name] = v.String()
				}
			}
		}
	}
	for _, t := range c.hashLog {
		s := ""
		if t != nil && m != nil {
			s = c.hashScript(t, m)
		}
		r.Hashes = append(r.Hashes, s)
	}
	for _, d := range c.rands {
		s := ""
		if m != nil && !d.raw {
			if a := c.single(d.p); a != nil {
				if v, ok := m.ints[a.id]; ok {
					s = v.String()
				}
			}
		}
		r.Draws = append(r.Draws, s)
		mx := ""
		if d.upper != nil {
			if v := c.modelVal(d.upper, m); v != nil {
				mx = v.String()
			}
		} else if !d.raw {
			mx = d.max.String()
		}
		r.DrawMax = append(r.DrawMax, mx)
	}
	return r
}

// modelVal is the value of p in a model, if all of its atoms have one.
func (c *Ctx) modelVal(p *Poly, m *Model) *big.Int {
	if m == nil {
		return nil
	}
	sum := new(big.Int)
	for k, v := range p.t {
		t := new(big.Int).Set(v)
		for _, f := range factors(k) {
			x, ok := m.ints[f.id]
			if !ok || f.e < 0 {
				return nil
			}
			t.Mul(t, new(big.Int).Exp(x, big.NewInt(int64(f.e)), nil))
		}
		sum.Add(sum, t)
	}
	return sum
}

// rangeRes tells which of a few arbitrary bit patterns a value can have.
type rangeRes struct {
	attempts int
	what     string
	hit      [4]bool
	replay   *Replay
}

// bitPattern: the low bits of p are the i-th of some unrelated patterns.
func (c *Ctx) bitPattern(p *Poly, label string, bits, i int) *Pred {
	v := new(big.Int)
	for k := 0; 256*k < bits; k++ {
		h := sha256.Sum256([]byte(fmt.Sprint("pattern", i/2, k)))
		v.Lsh(v, 256).Add(v, new(big.Int).SetBytes(h[:]))
	}
	m := new(big.Int).Lsh(one, uint(bits))
	v.Mod(v, m)
	if i%2 == 1 {
		v.Sub(new(big.Int).Sub(m, one), v)
	}
	low := c.mkMod(p, m)
	return mkAnd(c.le(pConst(v), low), c.le(low, pConst(v)))
}

// hashScript is the output of the hash in the model: hexadecimal digits, with
// question marks where the model says nothing.
func (c *Ctx) hashScript(t *Tok, m *Model) string {
	out := []byte(strings.Repeat("?", 2*t.n))
	pre := fmt.Sprintf("hash(%x)[", shortHash(t.key))
	for id, v := range m.ints {
		if int(id) >= len(c.atoms) || !strings.HasPrefix(c.atoms[id].name, pre) {
			continue
		}
		var a, b int
		if n, _ := fmt.Sscanf(c.atoms[id].name[len(pre):], "%d:%d]", &a, &b); n == 2 && b <= t.n && v.Sign() >= 0 && v.BitLen() <= 8*(b-a) {
			copy(out[2*a:2*b], fmt.Sprintf("%0*x", 2*(b-a), v))
		}
	}
	if strings.Trim(string(out), "?") == "" {
		return ""
	}
	return string(out)
}

type hostSnap struct{ leaves []value }

func (c *Ctx) snapLeaves(v value, t types.Type, out *[]value, seen map[*value]bool, depth int) {
	if depth > 60 {
		return
	}
	switch x := v.(type) {
	case structure:
		*out = append(*out, "{")
		for i := range x {
			c.snapLeaves(x[i], nil, out, seen, depth+1)
		}
	case array:
		for i := range x {
			c.snapLeaves(x[i], nil, out, seen, depth+1)
		}
	case []value:
		if x == nil {
			*out = append(*out, "nil")
			return
		}
		*out = append(*out, int64(len(x)))
		for i := range x {
			c.snapLeaves(x[i], nil, out, seen, depth+1)
		}
	case *value:
		if x == nil {
			*out = append(*out, "nil")
			return
		}
		if seen[x] {
			return
		}
		seen[x] = true
		c.snapLeaves(*x, nil, out, seen, depth+1)
		delete(seen, x)
	case iface:
		if x.t == nil {
			*out = append(*out, "nil")
			return
		}
		*out = append(*out, x.t.String())
		c.snapLeaves(x.v, nil, out, seen, depth+1)
	case *hostElem:
		*out = append(*out, c.mkMod(x.d(), x.ci.N))
	case *hostScalar:
		*out = append(*out, x.v)
	case *hostGroup, *hostErr, *hostReader, *hostFn, *closure:
		*out = append(*out, "host")
	case *smap:
		if x == nil {
			*out = append(*out, "nil")
			return
		}
		ks := append([]string{}, x.keys...)
		sort.Strings(ks)
		for _, k := range ks {
			if e, ok := x.m[k]; ok {
				*out = append(*out, k)
				c.snapLeaves(e.v, nil, out, seen, depth+1)
			}
		}
	case bool, *Pred, int64, uint64, *Poly, *BV, string, float64, *Rope:
		*out = append(*out, x)
	default:
		*out = append(*out, fmt.Sprintf("%T", v))
	}
}

// numbers collects the integers in exported places of v, group elements excluded.
func (c *Ctx) numbers(v value, t types.Type, out *[]value, depth int) {
	if depth > 40 {
		return
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if n.Obj().Pkg().Path() == "math/big" && n.Obj().Name() == "Int" {
			if p, ok := v.(*Poly); ok {
				*out = append(*out, c.newBig(p))
			}
			return
		}
		if strings.HasSuffix(n.Obj().Pkg().Path(), "/group") {
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if x, ok := v.(*value); ok && x != nil {
			c.numbers(*x, u.Elem(), out, depth+1)
		}
	case *types.Interface:
		if x, ok := v.(iface); ok && x.t != nil {
			c.numbers(x.v, x.t, out, depth+1)
		}
	case *types.Struct:
		if x, ok := v.(structure); ok {
			for i := range x {
				if u.Field(i).Exported() {
					c.numbers(x[i], u.Field(i).Type(), out, depth+1)
				}
			}
		}
	case *types.Slice:
		if x, ok := v.([]value); ok {
			for i := range x {
				c.numbers(x[i], u.Elem(), out, depth+1)
			}
		}
	case *types.Array:
		if x, ok := v.(array); ok {
			for i := range x {
				c.numbers(x[i], u.Elem(), out, depth+1)
			}
		}
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 && isNum(v) {
			*out = append(*out, c.newBig(c.toPoly(v)))
		}
	}
}

func (c *Ctx) snapSame(a, b *hostSnap) *Pred {
	if len(a.leaves) != len(b.leaves) {
		return tFalse
	}
	q := tTrue
	for i := range a.leaves {
		x, y := a.leaves[i], b.leaves[i]
		if fmt.Sprintf("%T", x) == fmt.Sprintf("%T", y) || isNum(x) && isNum(y) || isStr(x) && isStr(y) {
			q = mkAnd(q, c.equal(x, y))
		} else {
			return tFalse
		}
		if q == tFalse {
			return q
		}
	}
	return q
}
func isNum(v value) bool {
	switch v.(type) {
	case int64, uint64, *Poly, *BV:
		return true
	}
	return false
}
func isStr(v value) bool {
	switch v.(type) {
	case string, *Rope:
		return true
	}
	return false
}

// ---------------------------------------------------------------- JSON mutation

type jsite struct {
	parent *JNode
	idx    int
	node   *JNode
	op     string
}

func jsites(n, parent *JNode, idx int, path, prefix string, out []jsite) []jsite {
	if strings.HasPrefix(path, prefix) {
		ops := []string{"null", "str", "num", "arr", "obj", "bool"}
		if parent != nil {
			ops = append(ops, "del")
		}
		if n.kind == 'a' && len(n.arr) > 0 {
			ops = append(ops, "pop", "dup")
		}
		for _, o := range ops {
			out = append(out, jsite{parent, idx, n, o})
		}
	}
	for i, k := range n.arr {
		if n.kind == 'a' && i != 0 && i != len(n.arr)-1 {
			continue
		}
		seg := fmt.Sprint(i)
		if n.kind == 'o' {
			seg = n.keys[i]
		}
		out = jsites(k, n, i, path+"."+seg, prefix, out)
	}
	return out
}

func (c *Ctx) choice(name string, n int) int {
	i := c.choose(n)
	c.nondets = append(c.nondets, ndRec{Name: name, kind: "choice", p: pInt(int64(i))})
	return i
}

func (c *Ctx) nondetInt(name string, lo, hi *big.Int) *Poly {
	p := c.sym("in:"+name, cNondet, lo, hi)
	if lo.Cmp(hi) == 0 {
		p = pConst(lo)
	}
	c.nondets = append(c.nondets, ndRec{Name: name, p: p, kind: "int"})
	return p
}

func init() {
	const R = "github.com/takakv/msc-poc/verifrt."
	reg(R+"Big", func(c *Ctx, a []value) value {
		lo, hi := c.bigArg(a[1]), c.bigArg(a[2])
		if !lo.isConst() || !hi.isConst() {
			c.unsupported("symbolic bounds")
		}
		if lo.constVal().Cmp(hi.constVal()) > 0 {
			c.unsupported("empty range")
		}
		return newCell(c.nondetInt(c.nondetName(a[0]), lo.constVal(), hi.constVal()))
	})
	reg(R+"Int", func(c *Ctx, a []value) value {
		return c.intVal(c.nondetInt(c.nondetName(a[0]), big.NewInt(c.concInt(a[1], "lo")), big.NewInt(c.concInt(a[2], "hi"))), true)
	})
	reg(R+"Int64", func(c *Ctx, a []value) value {
		n := c.nondetName(a[0])
		v := fmt.Sprintf("bv_%d", len(c.nondets))
		c.bvWidth[v] = 64
		c.nondets = append(c.nondets, ndRec{Name: n, bv: v, kind: "bv"})
		return &BV{e: v, w: 64, vars: []string{v}}
	})
	reg(R+"Bool", func(c *Ctx, a []value) value {
		n := c.nondetName(a[0])
		v := fmt.Sprintf("bool_%d", len(c.nondets))
		c.nondets = append(c.nondets, ndRec{Name: n, bv: v, kind: "bool"})
		return &Pred{op: pVar, smt: v, key: "V:" + v}
	})
	reg(R+"Choice", func(c *Ctx, a []value) value {
		return int64(c.choice(c.nondetName(a[0]), int(c.concInt(a[1], "n"))))
	})
	reg(R+"Bytes", func(c *Ctx, a []value) value {
		n := c.nondetName(a[0])
		k := int(c.concInt(a[1], "n"))
		if k == 0 {
			return []value{}
		}
		p := c.nondetInt(n, zero, new(big.Int).Sub(new(big.Int).Lsh(one, uint(8*k)), one))
		return c.cells(ropeTok(c.tokBE(p, k)))
	})
	reg(R+"Assume", func(c *Ctx, a []value) value {
		q, _ := c.predOf(a[0])
		switch c.feas(q) {
		case 2:
			panic(pathEnd{"assumption"})
		case 3:
			c.assume(q)
		}
		return nil
	})
	reg(R+"Assert", func(c *Ctx, a []value) value {
		q, ok := c.predOf(a[1])
		if !ok {
			c.unsupported("assertion value")
		}
		c.assertion(c.mustStr(a[0], "label"), q)
		return nil
	})
	reg(R+"Reach", func(c *Ctx, a []value) value {
		c.reached = append(c.reached, c.mustStr(a[0], "label"))
		return nil
	})
	reg(R+"FullRange", func(c *Ctx, a []value) value {
		if c.spec > 0 {
			panic(specAbort{"full range"})
		}
		label := c.mustStr(a[0], "label")
		p := c.bigArg(a[1])
		bits := int(c.concInt(a[2], "bits"))
		c.asserts++
		ok := c.ranges[label]
		if ok == nil {
			ok = &rangeRes{attempts: bits + 100, what: "some bit patterns are impossible", replay: c.makeReplay(nil)}
			c.ranges[label] = ok
		}
		if e := c.nextEvent('x'); e != nil {
			return nil
		}
		c.record(event{kind: 'x'})
		for i := range ok.hit {
			r, _ := c.check(false, c.bitPattern(p, label, bits, i))
			switch r {
			case resSat:
				ok.hit[i] = true
			case resUnknown:
				c.inconcl = append(c.inconcl, "solver answered unknown on the range of a value")
			}
		}
		return nil
	})
	reg(R+"Exists", func(c *Ctx, a []value) value {
		if c.spec > 0 {
			panic(specAbort{"exists"})
		}
		label := c.mustStr(a[0], "label")
		c.asserts++
		ok := c.ranges[label]
		if ok == nil {
			ok = &rangeRes{attempts: 2*int(c.concInt(a[2], "attempts")) + 50, what: "never the case", replay: c.makeReplay(nil)}
			c.ranges[label] = ok
		}
		if e := c.nextEvent('x'); e != nil {
			return nil
		}
		c.record(event{kind: 'x'})
		q, isPred := c.predOf(a[1])
		if !isPred {
			c.unsupported("possibility value")
		}
		r, _ := c.check(false, q)
		switch r {
		case resSat:
			ok.hit = [4]bool{true, true, true, true}
		case resUnknown:
			c.inconcl = append(c.inconcl, "solver answered unknown on a possibility")
		}
		return nil
	})
	reg(R+"Thorough", func(c *Ctx, a []value) value { return thorough })
	reg(R+"LoopBound", func(c *Ctx, a []value) value { c.loopBound = int(c.concInt(a[0], "n")); return nil })
	reg(R+"Bound", func(c *Ctx, a []value) value { c.bounded[c.mustStr(a[0], "bound")] = true; return nil })
	reg(R+"Draws", func(c *Ctx, a []value) value {
		out := make([]value, len(c.rands))
		for i, r := range c.rands {
			out[i] = newCell(r.p)
		}
		return out
	})
	reg(R+"OnCurve", func(c *Ctx, a []value) value {
		ci := []*CurveInfo{curveP256, curveP384, curveK1}[c.concInt(a[0], "curve")]
		x, y := c.bigArg(a[1]), c.bigArg(a[2])
		m := pConst(ci.P)
		if !c.branch(mkAnd(c.le(pInt(0), x), c.lt(x, m), c.le(pInt(0), y), c.lt(y, m))) {
			return false
		}
		return c.boolVal(c.onCurvePred(ci, x, y))
	})
	reg(R+"RecordHashes", func(c *Ctx, a []value) value {
		c.recHash, c.hashes = true, nil
		return nil
	})
	reg(R+"ScriptHashes", func(c *Ctx, a []value) value {
		c.script = true
		return nil
	})
	reg(R+"Hashes", func(c *Ctx, a []value) value {
		out := make([]value, len(c.hashes))
		for i, p := range c.hashes {
			out[i] = newCell(p)
		}
		return out
	})
	reg(R+"ForceDraws", func(c *Ctx, a []value) value {
		c.forced = nil
		if v, ok := a[0].(*value); ok && v != nil {
			c.forced = c.bigArg(a[0])
		}
		return nil
	})
	reg(R+"DrawLimit", func(c *Ctx, a []value) value {
		c.drawLabel, c.drawLimit = c.mustStr(a[0], "label"), len(c.rands)+int(c.concInt(a[1], "n"))
		return nil
	})
	reg(R+"Redraw", func(c *Ctx, a []value) value {
		from, to, j := int(c.concInt(a[0], "from")), int(c.concInt(a[1], "to")), int(c.concInt(a[2], "j"))
		c.again = nil
		for i := from; i < to; i++ {
			var p *Poly
			if i != j {
				p = c.rands[i].p
			}
			c.again = append(c.again, p)
		}
		return nil
	})
	reg(R+"Panics", func(c *Ctx, a []value) (res value) {
		if c.spec > 0 {
			panic(specAbort{"recover"})
		}
		depth, cur := c.depth, len(c.curFn)
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					c.depth = depth
					c.curFn = c.curFn[:cur]
					c.tagged = append(c.tagged, "panic: "+tp.msg)
					res = true
					return
				}
				panic(r)
			}
		}()
		c.callValue(a[0], nil)
		return false
	})
	reg(R+"Snap", func(c *Ctx, a []value) value {
		h := &hostSnap{}
		for _, i := range ifaces(a[0]) {
			c.snapLeaves(i, nil, &h.leaves, map[*value]bool{}, 0)
		}
		return newCell(h)
	})
	reg(R+"Numbers", func(c *Ctx, a []value) value {
		var out []value
		for _, i := range ifaces(a[0]) {
			if i.t != nil {
				c.numbers(i.v, i.t, &out, 0)
			}
		}
		return out
	})
	reg(R+"Same", func(c *Ctx, a []value) value {
		return c.boolVal(c.snapSame((*a[0].(*value)).(*hostSnap), (*a[1].(*value)).(*hostSnap)))
	})
	reg(R+"JMutate", func(c *Ctx, a []value) value {
		name := c.nondetName(a[0])
		n := c.jparse(a[1])
		if n == nil {
			c.unsupported("JMutate of a non-document")
		}
		root := n.clone()
		ss := jsites(root, nil, 0, "", c.mustStr(a[2], "prefix"), nil)
		s := ss[c.choice(name, len(ss))]
		var m *JNode
		switch s.op {
		case "null":
			m = &JNode{kind: 'n'}
		case "str":
			m = &JNode{kind: 's', str: ropeStr("x")}
		case "num":
			lim := new(big.Int).Lsh(one, 3200)
			m = &JNode{kind: '#', num: c.nondetInt(name+".num", new(big.Int).Neg(lim), lim)}
		case "arr":
			m = &JNode{kind: 'a'}
		case "obj":
			m = &JNode{kind: 'o'}
		case "bool":
			m = &JNode{kind: 'b', b: true}
		case "del":
			s.parent.arr = append(s.parent.arr[:s.idx:s.idx], s.parent.arr[s.idx+1:]...)
			if s.parent.kind == 'o' {
				s.parent.keys = append(s.parent.keys[:s.idx:s.idx], s.parent.keys[s.idx+1:]...)
			}
		case "pop":
			s.node.arr = s.node.arr[:len(s.node.arr)-1]
		case "dup":
			s.node.arr = append(s.node.arr, s.node.arr[len(s.node.arr)-1])
		}
		if m != nil {
			if s.parent == nil {
				root = m
			} else {
				s.parent.arr[s.idx] = m
			}
		}
		return c.jbytes(root)
	})
}

var thorough bool
