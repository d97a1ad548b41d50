package main

import (
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- host errors, readers, hashes

type hostErr struct {
	msg  string
	rope *Rope
	wrap []iface
}

func (e *hostErr) typeName() string { return "error" }
func (e *hostErr) method(c *Ctx, name string, args []value) value {
	switch name {
	case "Error", "String":
		if e.rope != nil {
			return ropeVal(e.rope)
		}
		return e.msg
	case "Unwrap":
		if len(e.wrap) == 1 {
			return e.wrap[0]
		}
		return iface{}
	case "RuntimeError":
		return nil
	}
	c.unsupported("error method " + name)
	return nil
}

// hostWeak is a generator of math/rand.
type hostWeak struct{}

func (h *hostWeak) typeName() string { return "source" }
func (h *hostWeak) method(c *Ctx, name string, args []value) value {
	c.unsupported("math/rand source method " + name)
	return nil
}

// weakDraw is a value of a generator other than crypto/rand.
func (c *Ctx) weakDraw(max *big.Int) *Poly {
	if c.spec > 0 {
		panic(specAbort{"rand"})
	}
	c.weak++
	return c.sym(fmt.Sprintf("weak%d", c.weak), cRand, zero, new(big.Int).Sub(max, one))
}

type hostReader struct{}

func (h *hostReader) typeName() string { return "reader" }
func (h *hostReader) method(c *Ctx, name string, args []value) value {
	if name == "Read" {
		return c.randRead(args[0])
	}
	c.unsupported("reader method " + name)
	return nil
}

func (c *Ctx) randRead(b value) value {
	if c.spec > 0 {
		panic(specAbort{"rand"})
	}
	buf, ok := b.([]value)
	if !ok {
		c.unsupported("rand.Read into an opaque slice")
	}
	if len(buf) == 0 {
		return tuple{int64(0), iface{}}
	}
	m := new(big.Int).Lsh(one, uint(8*len(buf)))
	p := c.draw(m, false)
	for i, v := range c.cells(ropeTok(c.tokBE(p, len(buf)))) {
		c.set(&buf[i], v)
	}
	return tuple{int64(len(buf)), iface{}}
}

func (c *Ctx) strIface(s string) iface { return iface{types.Typ[types.String], s} }

type hostHash struct {
	alg string
	n   int
	buf value
}

func (h *hostHash) typeName() string { return "hash" }
func (h *hostHash) method(c *Ctx, name string, args []value) value {
	switch name {
	case "Write":
		r := c.bytesRope(args[0])
		c.set(&h.buf, ropeCat(h.buf.(*Rope), r))
		return tuple{c.lenOf(args[0]), iface{}}
	case "Sum":
		return c.appendVals(args[0], c.bytesVal(c.hashRope(h.alg, h.n, h.buf.(*Rope))))
	case "Reset":
		c.set(&h.buf, &Rope{})
		return nil
	case "Size":
		return int64(h.n)
	case "BlockSize":
		if h.n > 32 {
			return int64(128)
		}
		return int64(64)
	}
	c.unsupported("hash method " + name)
	return nil
}

func nativeHash(alg string, b []byte) []byte {
	switch alg {
	case "sha256":
		s := sha256.Sum256(b)
		return s[:]
	case "sha224":
		s := sha256.Sum224(b)
		return s[:]
	case "sha512":
		s := sha512.Sum512(b)
		return s[:]
	case "sha384":
		s := sha512.Sum384(b)
		return s[:]
	}
	panic("hash")
}

// hashRope models a hash as a function: equal inputs give equal outputs,
// different inputs independent ones.
func (c *Ctx) hashRope(alg string, n int, r *Rope) *Rope {
	out := c.hashRope1(alg, n, r)
	if n := len(c.curFn); c.script && alg == "sha256" && n > 0 && c.curFn[n-1].repo {
		if c.spec > 0 {
			panic(specAbort{"hash"})
		}
		c.hashLog = append(c.hashLog, out.segs[0].tok)
	}
	if n := len(c.curFn); c.recHash && alg == "sha256" && n > 0 && c.curFn[n-1].repo {
		if c.spec > 0 {
			panic(specAbort{"hash"})
		}
		c.hashes = append(c.hashes, c.ropeUint(out))
	}
	return out
}

func (c *Ctx) hashRope1(alg string, n int, r *Rope) *Rope {
	if s, ok := r.concrete(); ok {
		return ropeStr(string(nativeHash(alg, []byte(s))))
	}
	h := sha256.Sum256([]byte(r.Key()))
	key := alg + ":" + hex.EncodeToString(h[:16])
	mk := "hashes:" + alg
	list, _ := c.memo[mk].([]*Tok)
	for _, t := range list {
		if t.key == key {
			return ropeTok(t)
		}
	}
	for _, t := range list {
		q := c.ropeEq(t.in, r)
		if q.op == pFalse {
			continue
		}
		if c.branch(q) {
			return ropeTok(t)
		}
	}
	t := &Tok{kind: "hash", n: n, key: key, in: r, p: pInt(0)}
	if c.spec > 0 {
		// do not leave speculative entries behind in the table
		return ropeTok(t)
	}
	c.memo[mk] = append(list[:len(list):len(list)], t)
	return ropeTok(t)
}

// ---------------------------------------------------------------- method calls from the host

func (c *Ctx) callMethod(i iface, name string, args ...value) value {
	if i.t == nil {
		c.nilDeref()
	}
	if h, ok := i.v.(hostObj); ok {
		return h.method(c, name, args)
	}
	f := c.P.methodByName(i.t, name)
	if f == nil {
		c.unsupported("no method " + name + " on " + i.t.String())
	}
	return c.call(f, append([]value{i.v}, args...), nil)
}

func (c *Ctx) hasMethod(t types.Type, name string) bool {
	return c.P.methodByName(t, name) != nil
}

// ---------------------------------------------------------------- formatting

func (c *Ctx) opaqueText(v value) *Rope {
	c.fresh++
	return ropeTok(&Tok{kind: "txt", n: -1, key: fmt.Sprintf("%d", c.fresh)})
}

func (c *Ctx) fmtVal(a iface, verb byte, flags string) *Rope {
	if a.t == nil {
		return ropeStr("<nil>")
	}
	if h, ok := a.v.(*hostErr); ok {
		return strRope(h.method(c, "Error", nil))
	}
	if p, ok := a.v.(*value); ok && isPtrBig(a.t) {
		if p == nil {
			return ropeStr("<nil>")
		}
		x, ok := (*p).(*Poly)
		if ok {
			if x.isConst() {
				return ropeStr(fmt.Sprintf("%"+flags+string(verb), x.constVal()))
			}
			if verb == 'd' || verb == 'v' || verb == 's' {
				return ropeTok(c.tokDec(x))
			}
			return ropeTok(&Tok{kind: "fmt" + flags + string(verb), p: x, n: -1, key: x.Key()})
		}
	}
	if verb == 's' || verb == 'v' || verb == 'q' || verb == 'w' {
		if _, isH := a.v.(hostObj); !isH {
			for _, m := range []string{"Error", "String"} {
				if f := c.P.methodByName(a.t, m); f != nil && f.Signature.Params().Len() == 0 {
					if p, ok := a.v.(*value); ok && p == nil {
						return ropeStr("<nil>")
					}
					return strRope(c.call(f, []value{a.v}, nil))
				}
			}
		}
	}
	switch x := a.v.(type) {
	case string, bool, float64:
		return ropeStr(fmt.Sprintf("%"+flags+string(verb), x))
	case int64, uint64:
		if verb == 'w' {
			verb = 'v'
		}
		return ropeStr(fmt.Sprintf("%"+flags+string(verb), x))
	case *Rope:
		if b, ok := a.t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') {
			return x
		}
		return ropeTok(&Tok{kind: "fmt" + flags + string(verb), n: -1, key: x.Key()})
	case *Poly:
		if verb == 'd' || verb == 'v' {
			return ropeTok(c.tokDec(x))
		}
		return ropeTok(&Tok{kind: "fmt" + flags + string(verb), p: x, n: -1, key: x.Key()})
	case []value:
		if sl, ok := a.t.Underlying().(*types.Slice); ok {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				r := c.cellsRope(x)
				if s, ok := r.concrete(); ok {
					return ropeStr(fmt.Sprintf("%"+flags+string(verb), []byte(s)))
				}
				if verb == 's' {
					return r
				}
				return ropeTok(&Tok{kind: "fmt" + flags + string(verb), n: -1, key: r.Key()})
			}
			out := ropeStr("[")
			for i, e := range x {
				if i > 0 {
					out = ropeCat(out, ropeStr(" "))
				}
				ei, ok := e.(iface)
				if !ok {
					ei = iface{sl.Elem(), e}
				}
				out = ropeCat(out, c.fmtVal(ei, verb, flags))
			}
			return ropeCat(out, ropeStr("]"))
		}
	}
	return c.opaqueText(a.v)
}

func isPtrBig(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && isBig(p.Elem())
}

func ifaces(v value) []iface {
	s, _ := v.([]value)
	out := make([]iface, len(s))
	for i := range s {
		out[i], _ = s[i].(iface)
	}
	return out
}

func (c *Ctx) sprintf(format value, args []iface) (*Rope, []iface) {
	f, ok := format.(string)
	if !ok {
		return c.opaqueText(nil), nil
	}
	out := &Rope{}
	var wrapped []iface
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			j := strings.IndexByte(f[i:], '%')
			if j < 0 {
				j = len(f) - i
			}
			out.push(seg{s: f[i : i+j]})
			i += j - 1
			continue
		}
		i++
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			out.push(seg{s: "%!(NOVERB)"})
			break
		}
		if f[i] == '%' {
			out.push(seg{s: "%"})
			continue
		}
		if ai >= len(args) {
			out.push(seg{s: "%!" + string(f[i]) + "(MISSING)"})
			continue
		}
		a := args[ai]
		ai++
		switch f[i] {
		case 'w':
			wrapped = append(wrapped, a)
			out = ropeCat(out, c.fmtVal(a, 'v', f[st:i]))
		case 'T':
			if a.t == nil {
				out.push(seg{s: "<nil>"})
			} else {
				out.push(seg{s: a.t.String()})
			}
		default:
			out = ropeCat(out, c.fmtVal(a, f[i], f[st:i]))
		}
	}
	return out, wrapped
}

func (c *Ctx) sprint(args []iface, ln bool) *Rope {
	out := &Rope{}
	for i, a := range args {
		if i > 0 {
			_, s1 := a.v.(string)
			_, s2 := args[i-1].v.(string)
			if ln || !s1 && !s2 {
				out = ropeCat(out, ropeStr(" "))
			}
		}
		out = ropeCat(out, c.fmtVal(a, 'v', ""))
	}
	if ln {
		out = ropeCat(out, ropeStr("\n"))
	}
	return out
}

func (c *Ctx) mustStr(v value, what string) string {
	switch s := v.(type) {
	case string:
		return s
	case *Rope:
		if t, ok := s.concrete(); ok {
			return t
		}
	}
	c.unsupported(what + " of symbolic text")
	return ""
}

func strSlice(ss []string) value {
	out := make([]value, len(ss))
	for i := range ss {
		out[i] = ss[i]
	}
	return out
}

func (c *Ctx) errIs(e, t iface, depth int) *Pred {
	if e.t == nil || t.t == nil {
		return boolPred(e.t == nil && t.t == nil)
	}
	q := tFalse
	if types.Identical(e.t, t.t) {
		q = c.equal(e.v, t.v)
	}
	if q == tTrue || depth > 8 {
		return q
	}
	if h, ok := e.v.(*hostErr); ok {
		for _, w := range h.wrap {
			q = mkOr(q, c.errIs(w, t, depth+1))
		}
		return q
	}
	if f := c.P.methodByName(e.t, "Unwrap"); f != nil {
		if r, ok := c.call(f, []value{e.v}, nil).(iface); ok {
			q = mkOr(q, c.errIs(r, t, depth+1))
		}
	}
	return q
}

func init() {
	// errors
	reg("errors.New", func(c *Ctx, a []value) value {
		r := strRope(a[0])
		s, ok := r.concrete()
		e := &hostErr{msg: s}
		if !ok {
			e.rope = r
		}
		return iface{c.P.errType, e}
	})
	reg("errors.Is", func(c *Ctx, a []value) value { return c.boolVal(c.errIs(a[0].(iface), a[1].(iface), 0)) })
	reg("errors.Unwrap", func(c *Ctx, a []value) value {
		if h, ok := a[0].(iface).v.(*hostErr); ok {
			return h.method(c, "Unwrap", nil)
		}
		c.unsupported("errors.Unwrap")
		return nil
	})
	reg("errors.Join", func(c *Ctx, a []value) value {
		var w []iface
		for _, e := range ifaces(a[0]) {
			if e.t != nil {
				w = append(w, e)
			}
		}
		if len(w) == 0 {
			return iface{}
		}
		return iface{c.P.errType, &hostErr{msg: "joined errors", wrap: w}}
	})
	// fmt
	reg("fmt.Errorf", func(c *Ctx, a []value) value {
		r, w := c.sprintf(a[0], ifaces(a[1]))
		s, ok := r.concrete()
		e := &hostErr{msg: s, wrap: w}
		if !ok {
			e.rope = r
			e.msg = "error"
		}
		return iface{c.P.errType, e}
	})
	reg("fmt.Sprintf", func(c *Ctx, a []value) value { r, _ := c.sprintf(a[0], ifaces(a[1])); return ropeVal(r) })
	reg("fmt.Sprint", func(c *Ctx, a []value) value { return ropeVal(c.sprint(ifaces(a[0]), false)) })
	reg("fmt.Sprintln", func(c *Ctx, a []value) value { return ropeVal(c.sprint(ifaces(a[0]), true)) })
	for _, n := range []string{"Println", "Printf", "Print"} {
		reg("fmt."+n, func(c *Ctx, a []value) value { return tuple{int64(0), iface{}} })
	}
	fw := func(c *Ctx, w value, r *Rope) value {
		i := w.(iface)
		if p, ok := i.v.(*value); ok && p == nil {
			return tuple{int64(0), iface{}} // standard output
		}
		return c.callMethod(i, "Write", c.bytesVal(r))
	}
	reg("fmt.Fprintf", func(c *Ctx, a []value) value { r, _ := c.sprintf(a[1], ifaces(a[2])); return fw(c, a[0], r) })
	reg("fmt.Fprint", func(c *Ctx, a []value) value { return fw(c, a[0], c.sprint(ifaces(a[1]), false)) })
	reg("fmt.Fprintln", func(c *Ctx, a []value) value { return fw(c, a[0], c.sprint(ifaces(a[1]), true)) })
	reg("io.WriteString", func(c *Ctx, a []value) value { return fw(c, a[0], strRope(a[1])) })
	for _, n := range []string{"Println", "Printf", "Print"} {
		reg("log."+n, func(c *Ctx, a []value) value { return nil })
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		reg("log."+n, func(c *Ctx, a []value) value { panic(targetPanic{v: c.strIface("log.Fatal"), msg: "log.Fatal"}) })
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		reg("log."+n, func(c *Ctx, a []value) value { panic(targetPanic{v: c.strIface("log.Panic"), msg: "log.Panic"}) })
	}
	reg("os.Exit", func(c *Ctx, a []value) value { panic(targetPanic{v: c.strIface("os.Exit"), msg: "os.Exit"}) })
	// time
	reg("time.Now", func(c *Ctx, a []value) value { return hostTime{} })
	reg("time.Since", func(c *Ctx, a []value) value { return int64(0) })
	reg("(time.Time).Sub", func(c *Ctx, a []value) value { return int64(0) })
	for _, n := range []string{"Nanoseconds", "Microseconds", "Milliseconds", "Round", "Truncate", "Abs"} {
		reg("(time.Duration)."+n, func(c *Ctx, a []value) value { return int64(0) })
	}
	for _, n := range []string{"Seconds", "Minutes", "Hours"} {
		reg("(time.Duration)."+n, func(c *Ctx, a []value) value { return float64(0) })
	}
	reg("(time.Duration).String", func(c *Ctx, a []value) value { return "0s" })
	// crypto/rand
	reg("crypto/rand.Int", func(c *Ctx, a []value) value {
		if c.spec > 0 {
			panic(specAbort{"rand"})
		}
		m := c.bigArg(a[1])
		if r, ok := a[0].(iface); !ok || r.t == nil {
			c.nilDeref()
		}
		_, strong := a[0].(iface).v.(*hostReader)
		if !m.isConst() {
			if iv := c.bounds(m); iv.lo != nil && iv.hi != nil && iv.hi.BitLen() <= 64 && iv.hi.Cmp(one) > 0 {
				return c.drawBelow(m, iv.hi, strong)
			}
			m = pConst(c.concretize(m, c.H.enumMax()))
		}
		mv := m.constVal()
		if mv.Sign() <= 0 {
			panic(targetPanic{v: c.strIface("crypto/rand: argument to Int is <= 0"), msg: "crypto/rand: argument to Int is <= 0"})
		}
		if mv.Cmp(one) == 0 {
			return tuple{newCell(pInt(0)), iface{}}
		}
		if !strong {
			return tuple{newCell(c.weakDraw(mv)), iface{}}
		}
		p := c.draw(mv, false)
		return tuple{newCell(p), iface{}}
	})
	// other sources of randomness: some value, but no draw from crypto/rand
	reg("math/rand.NewSource", func(c *Ctx, a []value) value { return c.hostIface("source", &hostWeak{}) })
	reg("math/rand.New", func(c *Ctx, a []value) value { var v value = &hostWeak{}; return &v })
	reg("(*math/big.Int).Rand", func(c *Ctx, a []value) value {
		m := c.bigArg(a[2])
		if !m.isConst() {
			c.unsupported("big.Int.Rand with a symbolic bound")
		}
		return c.bigSet(a[0], c.weakDraw(m.constVal()))
	})
	for _, n := range []string{"Int63n", "Intn", "Int31n"} {
		reg("math/rand."+n, func(c *Ctx, a []value) value {
			return c.intVal(c.weakDraw(big.NewInt(c.concInt(a[0], "n"))), true)
		})
		reg("(*math/rand.Rand)."+n, func(c *Ctx, a []value) value {
			return c.intVal(c.weakDraw(big.NewInt(c.concInt(a[1], "n"))), true)
		})
	}
	for _, n := range []string{"UnixNano", "Unix", "UnixMilli"} {
		reg("(time.Time)."+n, func(c *Ctx, a []value) value {
			return c.intVal(c.weakDraw(new(big.Int).Lsh(one, 62)), true)
		})
	}
	reg("crypto/rand.Read", func(c *Ctx, a []value) value { return c.randRead(a[0]) })
	reg("io.ReadFull", func(c *Ctx, a []value) value {
		if _, ok := a[0].(iface).v.(*hostReader); ok {
			return c.randRead(a[1])
		}
		c.unsupported("io.ReadFull")
		return nil
	})
	// hashes
	for _, h := range []struct {
		fn, alg string
		n       int
	}{{"crypto/sha256.New", "sha256", 32}, {"crypto/sha256.New224", "sha224", 28}, {"crypto/sha512.New", "sha512", 64}, {"crypto/sha512.New384", "sha384", 48}} {
		h := h
		reg(h.fn, func(c *Ctx, a []value) value {
			return c.hostIface("hash", &hostHash{alg: h.alg, n: h.n, buf: &Rope{}})
		})
	}
	for _, h := range []struct {
		fn, alg string
		n       int
	}{{"crypto/sha256.Sum256", "sha256", 32}, {"crypto/sha256.Sum224", "sha224", 28}, {"crypto/sha512.Sum512", "sha512", 64}, {"crypto/sha512.Sum384", "sha384", 48}} {
		h := h
		reg(h.fn, func(c *Ctx, a []value) value {
			return array(c.cells(c.hashRope(h.alg, h.n, c.bytesRope(a[0]))))
		})
	}
	// buffers
	bufOps("bytes.Buffer")
	bufOps("strings.Builder")
	reg("bytes.NewBuffer", func(c *Ctx, a []value) value { return newCell(c.bytesRope(a[0])) })
	reg("bytes.NewBufferString", func(c *Ctx, a []value) value { return newCell(strRope(a[0])) })
	reg("bytes.Equal", func(c *Ctx, a []value) value { return c.boolVal(c.ropeEq(c.bytesRope(a[0]), c.bytesRope(a[1]))) })
	reg("crypto/subtle.ConstantTimeCompare", func(c *Ctx, a []value) value {
		return c.intVal(c.ind(c.ropeEq(c.bytesRope(a[0]), c.bytesRope(a[1]))), true)
	})
	reg("bytes.Compare", func(c *Ctx, a []value) value {
		return c.ropeCompare(c.bytesRope(a[0]), c.bytesRope(a[1]))
	})
	for _, n := range []string{"strings.Compare", "cmp.Compare[string]"} {
		reg(n, func(c *Ctx, a []value) value { return c.ropeCompare(strRope(a[0]), strRope(a[1])) })
	}
	reg("bytes.Join", func(c *Ctx, a []value) value {
		out := &Rope{}
		s, _ := a[0].([]value)
		for i, x := range s {
			if i > 0 {
				out = ropeCat(out, c.bytesRope(a[1]))
			}
			out = ropeCat(out, c.bytesRope(x))
		}
		return c.bytesVal(out)
	})
	reg("bytes.Clone", func(c *Ctx, a []value) value {
		if s, ok := a[0].([]value); ok {
			if s == nil {
				return s
			}
			return append([]value{}, s...)
		}
		return a[0]
	})
	reg("strings.Join", func(c *Ctx, a []value) value {
		out := &Rope{}
		s, _ := a[0].([]value)
		for i, x := range s {
			if i > 0 {
				out = ropeCat(out, strRope(a[1]))
			}
			out = ropeCat(out, strRope(x))
		}
		return ropeVal(out)
	})
	s1 := func(n string, f func(string) value) {
		reg("strings."+n, func(c *Ctx, a []value) value { return f(c.mustStr(a[0], n)) })
	}
	s1("Fields", func(s string) value { return strSlice(strings.Fields(s)) })
	s1("TrimSpace", func(s string) value { return strings.TrimSpace(s) })
	s1("ToLower", func(s string) value { return strings.ToLower(s) })
	s1("ToUpper", func(s string) value { return strings.ToUpper(s) })
	s1("Title", func(s string) value { return strings.Title(s) })
	s2 := func(n string, f func(a, b string) value) {
		reg("strings."+n, func(c *Ctx, a []value) value { return f(c.mustStr(a[0], n), c.mustStr(a[1], n)) })
	}
	s2("Split", func(a, b string) value { return strSlice(strings.Split(a, b)) })
	s2("Contains", func(a, b string) value { return strings.Contains(a, b) })
	s2("HasPrefix", func(a, b string) value { return strings.HasPrefix(a, b) })
	s2("HasSuffix", func(a, b string) value { return strings.HasSuffix(a, b) })
	s2("TrimPrefix", func(a, b string) value { return strings.TrimPrefix(a, b) })
	s2("TrimSuffix", func(a, b string) value { return strings.TrimSuffix(a, b) })
	s2("Trim", func(a, b string) value { return strings.Trim(a, b) })
	s2("TrimLeft", func(a, b string) value { return strings.TrimLeft(a, b) })
	s2("TrimRight", func(a, b string) value { return strings.TrimRight(a, b) })
	s2("EqualFold", func(a, b string) value { return strings.EqualFold(a, b) })
	s2("Index", func(a, b string) value { return int64(strings.Index(a, b)) })
	s2("Count", func(a, b string) value { return int64(strings.Count(a, b)) })
	reg("strings.Repeat", func(c *Ctx, a []value) value {
		return strings.Repeat(c.mustStr(a[0], "Repeat"), int(c.concInt(a[1], "count")))
	})
	reg("strings.ReplaceAll", func(c *Ctx, a []value) value {
		return strings.ReplaceAll(c.mustStr(a[0], "Replace"), c.mustStr(a[1], "Replace"), c.mustStr(a[2], "Replace"))
	})
	reg("strings.Replace", func(c *Ctx, a []value) value {
		return strings.Replace(c.mustStr(a[0], "Replace"), c.mustStr(a[1], "Replace"), c.mustStr(a[2], "Replace"), int(c.concInt(a[3], "n")))
	})
	// strconv
	reg("strconv.Itoa", func(c *Ctx, a []value) value {
		if n, ok := a[0].(int64); ok {
			return strconv.Itoa(int(n))
		}
		return ropeTok(c.tokDec(c.toPoly(a[0])))
	})
	reg("strconv.FormatInt", func(c *Ctx, a []value) value {
		b := int(c.concInt(a[1], "base"))
		if n, ok := a[0].(int64); ok {
			return strconv.FormatInt(n, b)
		}
		if b != 10 {
			c.unsupported("FormatInt")
		}
		return ropeTok(c.tokDec(c.toPoly(a[0])))
	})
	reg("strconv.FormatUint", func(c *Ctx, a []value) value {
		b := int(c.concInt(a[1], "base"))
		if n, ok := a[0].(uint64); ok {
			return strconv.FormatUint(n, b)
		}
		if b != 10 {
			c.unsupported("FormatUint")
		}
		return ropeTok(c.tokDec(c.toPoly(a[0])))
	})
	reg("strconv.Atoi", func(c *Ctx, a []value) value {
		n, err := strconv.Atoi(c.mustStr(a[0], "Atoi"))
		if err != nil {
			return tuple{int64(n), c.hostErrVal(err.Error())}
		}
		return tuple{int64(n), iface{}}
	})
	reg("strconv.Quote", func(c *Ctx, a []value) value { return strconv.Quote(c.mustStr(a[0], "Quote")) })
	reg("encoding/hex.EncodeToString", func(c *Ctx, a []value) value {
		s, ok := c.bytesRope(a[0]).concrete()
		if !ok {
			return ropeTok(&Tok{kind: "hex", n: -1, key: c.bytesRope(a[0]).Key()})
		}
		return hex.EncodeToString([]byte(s))
	})
	reg("encoding/hex.DecodeString", func(c *Ctx, a []value) value {
		b, err := hex.DecodeString(c.mustStr(a[0], "hex"))
		e := iface{}
		if err != nil {
			e = c.hostErrVal(err.Error())
		}
		return tuple{c.bytesVal(ropeStr(string(b))), e}
	})
	// math
	f1 := func(n string, f func(float64) float64) {
		reg("math."+n, func(c *Ctx, a []value) value { return f(a[0].(float64)) })
	}
	f1("Log2", math.Log2)
	f1("Log", math.Log)
	f1("Log10", math.Log10)
	f1("Sqrt", math.Sqrt)
	f1("Ceil", math.Ceil)
	f1("Floor", math.Floor)
	f1("Round", math.Round)
	f1("Trunc", math.Trunc)
	f1("Abs", math.Abs)
	f1("Exp2", math.Exp2)
	reg("math.Pow", func(c *Ctx, a []value) value { return math.Pow(a[0].(float64), a[1].(float64)) })
	reg("math.Mod", func(c *Ctx, a []value) value { return math.Mod(a[0].(float64), a[1].(float64)) })
	reg("math.IsNaN", func(c *Ctx, a []value) value { return math.IsNaN(a[0].(float64)) })
	reg("math.Inf", func(c *Ctx, a []value) value { return math.Inf(int(c.concInt(a[0], "sign"))) })
	reg("math.IsInf", func(c *Ctx, a []value) value { return math.IsInf(a[0].(float64), int(c.concInt(a[1], "sign"))) })
	reg("math.Max", func(c *Ctx, a []value) value { return math.Max(a[0].(float64), a[1].(float64)) })
	reg("math.Min", func(c *Ctx, a []value) value { return math.Min(a[0].(float64), a[1].(float64)) })
	// sync
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait"} {
		d := 0
		if strings.HasSuffix(n, "Lock") {
			d = 1
		}
		if strings.HasSuffix(n, "nlock") || strings.HasSuffix(n, "RUnlock") {
			d = -1
		}
		if strings.Contains(n, ").R") {
			d = 0 // a reader's lock protects no write
		}
		reg(n, func(c *Ctx, a []value) value { c.locked(d); return nil })
	}
	reg("(*sync.WaitGroup).Go", func(c *Ctx, a []value) value { c.callValue(a[1], nil); return nil })
	reg("(*sync.Once).Do", func(c *Ctx, a []value) value {
		k := fmt.Sprintf("once:%p", a[0].(*value))
		if c.memo[k] == nil {
			if c.spec > 0 {
				panic(specAbort{"once"})
			}
			c.memo[k] = true
			c.locked(1)
			c.callValue(a[1], nil)
			c.locked(-1)
		}
		return nil
	})
	// sync.Map and the atomic types are safe for concurrent use
	syncMap := func(n string, f func(c *Ctx, m *smap, a []value) value) {
		reg("(*sync.Map)."+n, func(c *Ctx, a []value) value {
			p, ok := a[0].(*value)
			if !ok || p == nil {
				c.nilDeref()
			}
			if c.spec > 0 {
				panic(specAbort{"sync.Map"})
			}
			c.locked(1)
			defer c.locked(-1)
			return f(c, (*p).(*smap), a[1:])
		})
	}
	maybe := func(v value, ok bool) tuple {
		if !ok {
			return tuple{iface{}, false}
		}
		return tuple{v, true}
	}
	syncMap("Load", func(c *Ctx, m *smap, a []value) value { return maybe(m.get(c, a[0])) })
	syncMap("Store", func(c *Ctx, m *smap, a []value) value { m.put(c, a[0], a[1]); return nil })
	syncMap("LoadOrStore", func(c *Ctx, m *smap, a []value) value {
		if v, ok := m.get(c, a[0]); ok {
			return tuple{v, true}
		}
		m.put(c, a[0], a[1])
		return tuple{a[1], false}
	})
	syncMap("LoadAndDelete", func(c *Ctx, m *smap, a []value) value {
		v, ok := m.get(c, a[0])
		m.remove(c, a[0])
		return maybe(v, ok)
	})
	syncMap("Swap", func(c *Ctx, m *smap, a []value) value {
		v, ok := m.get(c, a[0])
		m.put(c, a[0], a[1])
		return maybe(v, ok)
	})
	syncMap("Delete", func(c *Ctx, m *smap, a []value) value { m.remove(c, a[0]); return nil })
	syncMap("Clear", func(c *Ctx, m *smap, a []value) value { m.m, m.keys = map[string]mapEnt{}, nil; return nil })
	syncMap("Range", func(c *Ctx, m *smap, a []value) value {
		for i := 0; i < len(m.keys); i++ {
			if e, ok := m.m[m.keys[i]]; ok {
				q, _ := c.predOf(c.callValue(a[0], []value{e.k, e.v}))
				if !c.branch(q) {
					break
				}
			}
		}
		return nil
	})
	reg("(*sync.Pool).Put", func(c *Ctx, a []value) value {
		if c.spec > 0 {
			panic(specAbort{"pool"})
		}
		k := fmt.Sprintf("pool:%p", a[0].(*value))
		l, _ := c.memo[k].([]value)
		c.memo[k] = append(l[:len(l):len(l)], a[1])
		return nil
	})
	reg("(*sync.Pool).Get", func(c *Ctx, a []value) value {
		if c.spec > 0 {
			panic(specAbort{"pool"})
		}
		k := fmt.Sprintf("pool:%p", a[0].(*value))
		if l, _ := c.memo[k].([]value); len(l) > 0 {
			c.memo[k] = l[: len(l)-1 : len(l)-1]
			return l[len(l)-1]
		}
		s := (*a[0].(*value)).(structure)
		if f := s[len(s)-1]; f != nil {
			if r := c.callValue(f, nil); r != nil {
				return r
			}
		}
		return iface{}
	})
	atom := func(c *Ctx, v value) *value { // the value cell of an atomic type
		p, ok := v.(*value)
		if !ok || p == nil {
			c.nilDeref()
		}
		if s, ok := (*p).(structure); ok {
			return &s[len(s)-1]
		}
		return p
	}
	atomicSet := func(c *Ctx, p *value, v value) {
		c.locked(1)
		c.set(p, v)
		c.locked(-1)
	}
	for _, tn := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Bool", "Pointer", "Value"} {
		tn := tn
		var typ types.Type
		switch tn {
		case "Int32":
			typ = types.Typ[types.Int32]
		case "Int64":
			typ = types.Typ[types.Int64]
		case "Uint32":
			typ = types.Typ[types.Uint32]
		case "Uint64", "Uintptr":
			typ = types.Typ[types.Uint64]
		}
		wrap := func(v value) value { // Bool is kept as a number by the library
			if tn == "Pointer" || typ != nil || tn == "Value" {
				return v
			}
			if b, ok := v.(bool); ok {
				if b {
					return uint64(1)
				}
				return uint64(0)
			}
			c := v.(*Pred)
			return c
		}
		unwrap := func(c *Ctx, v value) value {
			if tn != "Bool" {
				return v
			}
			if p, ok := v.(*Pred); ok {
				return p
			}
			return v.(uint64) != 0
		}
		ms, fs := []string{"(*sync/atomic." + tn + ")."}, ""
		if tn == "Pointer" {
			ms = append(ms, "(*sync/atomic.Pointer[T]).")
		}
		if typ != nil {
			fs = tn
		}
		add := func(n string, f intrinsic) {
			for _, m := range ms {
				reg(m+n, f)
			}
			if fs != "" {
				reg("sync/atomic."+n+fs, f)
			}
		}
		add("Load", func(c *Ctx, a []value) value { return unwrap(c, copyVal(*atom(c, a[0]))) })
		add("Store", func(c *Ctx, a []value) value { atomicSet(c, atom(c, a[0]), wrap(a[1])); return nil })
		add("Swap", func(c *Ctx, a []value) value {
			p := atom(c, a[0])
			v := copyVal(*p)
			atomicSet(c, p, wrap(a[1]))
			return unwrap(c, v)
		})
		add("CompareAndSwap", func(c *Ctx, a []value) value {
			p := atom(c, a[0])
			if c.branch(c.equal(*p, wrap(a[1]))) {
				atomicSet(c, p, wrap(a[2]))
				return true
			}
			return false
		})
		if typ != nil {
			add("Add", func(c *Ctx, a []value) value {
				p := atom(c, a[0])
				v := c.binop(token.ADD, typ, *p, a[1])
				atomicSet(c, p, v)
				return v
			})
		}
	}
	reg("sort.Slice", func(c *Ctx, a []value) value {
		s, ok := a[0].(iface).v.([]value)
		if !ok {
			c.unsupported("sort.Slice")
		}
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := c.callValue(a[1], []value{int64(j), int64(j - 1)})
				q, _ := c.predOf(r)
				if !c.branch(q) {
					break
				}
				x, y := s[j], s[j-1]
				c.set(&s[j], y)
				c.set(&s[j-1], x)
			}
		}
		return nil
	})
	reg("runtime.GC", func(c *Ctx, a []value) value { return nil })
	reg("runtime.KeepAlive", func(c *Ctx, a []value) value { return nil })
	reg("runtime.NumCPU", func(c *Ctx, a []value) value { return int64(4) })
	reg("runtime.GOMAXPROCS", func(c *Ctx, a []value) value { return int64(4) })
}

func bufOps(t string) {
	P := "(*" + t + ")."
	get := func(c *Ctx, v value) *Rope {
		p, ok := v.(*value)
		if !ok || p == nil {
			c.nilDeref()
		}
		return (*p).(*Rope)
	}
	add := func(c *Ctx, v value, r *Rope) { old := get(c, v); c.set(v.(*value), ropeCat(old, r)) }
	reg(P+"Write", func(c *Ctx, a []value) value {
		add(c, a[0], c.bytesRope(a[1]))
		return tuple{c.lenOf(a[1]), iface{}}
	})
	reg(P+"WriteString", func(c *Ctx, a []value) value {
		add(c, a[0], strRope(a[1]))
		return tuple{c.lenOf(a[1]), iface{}}
	})
	reg(P+"WriteByte", func(c *Ctx, a []value) value { add(c, a[0], c.cellsRope([]value{a[1]})); return iface{} })
	reg(P+"WriteRune", func(c *Ctx, a []value) value {
		s := string(rune(c.concInt(a[1], "rune")))
		add(c, a[0], ropeStr(s))
		return tuple{int64(len(s)), iface{}}
	})
	reg(P+"String", func(c *Ctx, a []value) value {
		if p := a[0].(*value); p == nil {
			return "<nil>"
		}
		return ropeVal(get(c, a[0]))
	})
	reg(P+"Bytes", func(c *Ctx, a []value) value { return c.bytesVal(get(c, a[0])) })
	reg(P+"Len", func(c *Ctx, a []value) value { return c.lenOf(get(c, a[0])) })
	reg(P+"Reset", func(c *Ctx, a []value) value { get(c, a[0]); c.set(a[0].(*value), &Rope{}); return nil })
	reg(P+"Grow", func(c *Ctx, a []value) value { return nil })
	reg(P+"Truncate", func(c *Ctx, a []value) value {
		if c.concInt(a[1], "n") != 0 {
			c.unsupported("Buffer.Truncate")
		}
		c.set(a[0].(*value), &Rope{})
		return nil
	})
}

var _ = ssa.NaiveForm

func (c *Ctx) ropeCompare(x, y *Rope) value {
	if x == nil || y == nil {
		c.unsupported("string comparison")
	}
	switch {
	case c.branch(c.ropeEq(x, y)):
		return int64(0)
	case c.branch(c.ropeLess(x, y)):
		return int64(-1)
	}
	return int64(1)
}
