package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

func bvLit(v uint64, w int) string {
	b := new(big.Int).SetUint64(v)
	if w < 64 {
		b.And(b, new(big.Int).Sub(new(big.Int).Lsh(one, uint(w)), one))
	}
	return fmt.Sprintf("(_ bv%s %d)", b, w)
}

func (c *Ctx) bvOf(v value, w int) *BV {
	switch x := v.(type) {
	case *BV:
		return x
	case int64:
		return &BV{e: bvLit(uint64(x), w), w: w}
	case uint64:
		return &BV{e: bvLit(x, w), w: w}
	case *Poly:
		m := new(big.Int).Lsh(one, uint(w))
		n := new(big.Int).Mod(c.concretize(x, c.H.enumMax()), m)
		return &BV{e: bvLit(n.Uint64(), w), w: w}
	}
	c.unsupported(fmt.Sprintf("bit-vector from %T", v))
	return nil
}

func bvVars(x, y *BV) []string {
	seen := map[string]bool{}
	var out []string
	for _, b := range []*BV{x, y} {
		if b == nil {
			continue
		}
		for _, v := range b.vars {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return out
}

func bvPred(s string, vars []string) *Pred {
	return &Pred{op: pBV, smt: s, vars: vars, key: "B" + s}
}

func (c *Ctx) bvEq(x, y value) *Pred {
	w := 64
	if b, ok := x.(*BV); ok {
		w = b.w
	} else if b, ok := y.(*BV); ok {
		w = b.w
	}
	a, b := c.bvOf(x, w), c.bvOf(y, w)
	return bvPred("(= "+a.e+" "+b.e+")", bvVars(a, b))
}

func (c *Ctx) bvBinop(op token.Token, bits int, signed bool, x, y value) value {
	a := c.bvOf(x, bits)
	var b *BV
	if op == token.SHL || op == token.SHR {
		switch s := y.(type) {
		case *BV:
			c.unsupported("symbolic shift of a bit-vector")
		case *Poly:
			n := c.concretize(s, c.H.enumMax())
			if n.Sign() < 0 {
				c.panicStr("negative shift amount")
			}
			k := uint64(bits)
			if n.IsUint64() && n.Uint64() < k {
				k = n.Uint64()
			}
			b = &BV{e: bvLit(k, bits), w: bits}
		default:
			c.unsupported(fmt.Sprintf("shift by %T", y))
		case int64:
			if s >= int64(bits) {
				s = int64(bits)
			}
			b = &BV{e: bvLit(uint64(s), bits), w: bits}
		case uint64:
			if s >= uint64(bits) {
				s = uint64(bits)
			}
			b = &BV{e: bvLit(s, bits), w: bits}
		}
	} else {
		b = c.bvOf(y, bits)
	}
	vs := bvVars(a, b)
	cmp := func(u, s string) value {
		o := u
		if signed {
			o = s
		}
		return bvPred("("+o+" "+a.e+" "+b.e+")", vs)
	}
	ar := func(u, s string) value {
		o := u
		if signed {
			o = s
		}
		return &BV{e: "(" + o + " " + a.e + " " + b.e + ")", w: bits, vars: vs}
	}
	switch op {
	case token.LSS:
		return cmp("bvult", "bvslt")
	case token.LEQ:
		return cmp("bvule", "bvsle")
	case token.GTR:
		return cmp("bvugt", "bvsgt")
	case token.GEQ:
		return cmp("bvuge", "bvsge")
	case token.ADD:
		return ar("bvadd", "bvadd")
	case token.SUB:
		return ar("bvsub", "bvsub")
	case token.MUL:
		return ar("bvmul", "bvmul")
	case token.AND:
		return ar("bvand", "bvand")
	case token.OR:
		return ar("bvor", "bvor")
	case token.XOR:
		return ar("bvxor", "bvxor")
	case token.AND_NOT:
		return &BV{e: "(bvand " + a.e + " (bvnot " + b.e + "))", w: bits, vars: vs}
	case token.SHL:
		return ar("bvshl", "bvshl")
	case token.SHR:
		return ar("bvlshr", "bvashr")
	case token.QUO, token.REM:
		if c.branch(bvPred("(= "+b.e+" "+bvLit(0, bits)+")", b.vars)) {
			c.panicStr("integer divide by zero")
		}
		if op == token.QUO {
			return ar("bvudiv", "bvsdiv")
		}
		return ar("bvurem", "bvsrem")
	}
	c.unsupported("bit-vector operator " + op.String())
	return nil
}

func (c *Ctx) bvConvert(v *BV, bits int, signed bool, src types.Type) value {
	if v.w == bits {
		return v
	}
	if v.w > bits {
		return &BV{e: fmt.Sprintf("((_ extract %d 0) %s)", bits-1, v.e), w: bits, vars: v.vars}
	}
	_, ss := c.intInfo(src)
	op := "zero_extend"
	if ss {
		op = "sign_extend"
	}
	return &BV{e: fmt.Sprintf("((_ %s %d) %s)", op, bits-v.w, v.e), w: bits, vars: v.vars}
}

// concBV enumerates the feasible values of a bit-vector expression.
func (c *Ctx) concBV(v *BV) int64 {
	for i := 0; ; i++ {
		if i >= c.H.enumMax() {
			c.bounded[fmt.Sprintf("value enumeration cut after %d values", i)] = true
			panic(pathEnd{"enumeration bound"})
		}
		if c.spec > 0 {
			panic(specAbort{"concretize"})
		}
		var x *big.Int
		if e := c.nextEvent('v'); e != nil {
			x = e.v
		} else {
			n := fmt.Sprintf("bvval%d", c.fresh)
			c.fresh++
			c.bvWidth[n] = v.w
			r, m := c.check(true, bvPred("(= "+n+" "+v.e+")", append([]string{n}, v.vars...)))
			if r != resSat || m == nil || m.bvs[n] == nil {
				c.unsupported("cannot concretize a bit-vector")
			}
			x = m.bvs[n]
			c.record(event{kind: 'v', v: x})
		}
		if c.branch(bvPred("(= "+v.e+" "+fmt.Sprintf("(_ bv%s %d)", x, v.w)+")", v.vars)) {
			if v.w == 64 {
				return int64(x.Uint64())
			}
			return new(big.Int).Set(x).Int64()
		}
	}
}
