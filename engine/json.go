package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"go/types"
	"math/big"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

// JNode is a JSON document; numbers and strings may be symbolic.
type JNode struct {
	kind byte // n null, b bool, # number, s string, a array, o object, x not JSON
	b    bool
	num  *Poly
	txt  string // text of a non-integer number
	str  *Rope
	arr  []*JNode
	keys []string
}

func (n *JNode) clone() *JNode {
	m := *n
	m.arr = make([]*JNode, len(n.arr))
	for i := range n.arr {
		m.arr[i] = n.arr[i].clone()
	}
	m.keys = append([]string{}, n.keys...)
	return &m
}

func (n *JNode) render(c *Ctx, out *Rope) {
	switch n.kind {
	case 'n':
		out.push(seg{s: "null"})
	case 'b':
		out.push(seg{s: fmt.Sprint(n.b)})
	case '#':
		if n.num == nil {
			out.push(seg{s: n.txt})
		} else {
			for _, s := range strRope(c.decVal(n.num)).segs {
				out.push(s)
			}
		}
	case 's':
		if s, ok := n.str.concrete(); ok {
			b, _ := json.Marshal(s)
			out.push(seg{s: string(b)})
		} else {
			out.push(seg{s: "\""})
			for _, s := range n.str.segs {
				out.push(s)
			}
			out.push(seg{s: "\""})
		}
	case 'a':
		out.push(seg{s: "["})
		for i, e := range n.arr {
			if i > 0 {
				out.push(seg{s: ","})
			}
			e.render(c, out)
		}
		out.push(seg{s: "]"})
	case 'o':
		out.push(seg{s: "{"})
		for i, e := range n.arr {
			if i > 0 {
				out.push(seg{s: ","})
			}
			b, _ := json.Marshal(n.keys[i])
			out.push(seg{s: string(b) + ":"})
			e.render(c, out)
		}
		out.push(seg{s: "}"})
	case 'x':
		out.push(seg{s: n.txt})
	}
}

// jbytes is the byte string of a document.
func (c *Ctx) jbytes(n *JNode) value {
	r := &Rope{}
	n.render(c, r)
	if _, ok := r.concrete(); ok {
		return c.bytesVal(r)
	}
	return ropeTok(&Tok{kind: "json", n: -1, key: r.Key(), ast: n})
}

func (c *Ctx) jsonFirst(t *Tok) value {
	switch t.ast.kind {
	case 'n':
		return uint64('n')
	case 's':
		return uint64('"')
	case 'a':
		return uint64('[')
	case 'o':
		return uint64('{')
	case 'b':
		if t.ast.b {
			return uint64('t')
		}
		return uint64('f')
	}
	c.unsupported("first byte of a symbolic JSON number")
	return nil
}

// jparse turns a byte value into a document; nil if it is not valid JSON.
func (c *Ctx) jparse(v value) *JNode {
	r := c.bytesRope(v)
	if len(r.segs) == 1 && r.segs[0].tok != nil && r.segs[0].tok.kind == "json" {
		n := r.segs[0].tok.ast
		if n.kind == 'x' {
			return nil
		}
		return n
	}
	// replace symbolic tokens by placeholders
	var b strings.Builder
	toks := map[string]seg{}
	inStr := false
	for _, s := range r.segs {
		if s.tok == nil {
			for i := 0; i < len(s.s); i++ {
				if s.s[i] == '\\' {
					i++
				} else if s.s[i] == '"' {
					inStr = !inStr
				}
			}
			b.WriteString(s.s)
			continue
		}
		switch {
		case s.tok.kind == "dec" && !inStr:
			k := fmt.Sprintf("98765432109876543210%06d", len(toks))
			toks[k] = s
			b.WriteString(k)
		case s.tok.kind == "json" && !inStr:
			k := fmt.Sprintf("98765432109876543210%06d", len(toks))
			toks[k] = s
			b.WriteString(k)
		case inStr && (s.tok.kind == "dec" || s.tok.kind == "hex" || s.tok.kind == "b64"):
			k := fmt.Sprintf("@@98765432109876543210%06d@@", len(toks))
			toks[k] = s
			b.WriteString(k)
		default:
			if r.segs[0].tok != nil {
				// arbitrary binary bytes: treated as not being JSON
				c.note("JSON decoding of opaque bytes taken to fail")
				return nil
			}
			c.unsupported("JSON text with embedded " + s.tok.kind)
		}
	}
	n, err := parseJSON([]byte(b.String()))
	if err != nil {
		return nil
	}
	if len(toks) > 0 {
		n = c.substToks(n, toks)
	}
	return n
}

func (c *Ctx) substToks(n *JNode, toks map[string]seg) *JNode {
	m := *n
	if n.kind == '#' && n.num != nil {
		if s, ok := toks[n.num.constVal().String()]; ok {
			if s.tok.kind == "json" {
				return s.tok.ast
			}
			m.num = s.tok.p
			return &m
		}
	}
	if n.kind == 's' {
		s, _ := n.str.concrete()
		for k, sg := range toks {
			if i := strings.Index(s, k); i >= 0 {
				out := ropeStr(s[:i])
				out.push(sg)
				out = ropeCat(out, ropeStr(s[i+len(k):]))
				if strings.Contains(s[i+len(k):], "@@9876543210") {
					c.unsupported("JSON string with several symbolic parts")
				}
				m.str = out
			}
		}
		return &m
	}
	m.arr = make([]*JNode, len(n.arr))
	for i := range n.arr {
		m.arr[i] = c.substToks(n.arr[i], toks)
	}
	return &m
}

func parseJSON(b []byte) (*JNode, error) {
	if !json.Valid(b) {
		return nil, fmt.Errorf("invalid")
	}
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	return parseTok(d)
}

func parseTok(d *json.Decoder) (*JNode, error) {
	t, err := d.Token()
	if err != nil {
		return nil, err
	}
	switch x := t.(type) {
	case nil:
		return &JNode{kind: 'n'}, nil
	case bool:
		return &JNode{kind: 'b', b: x}, nil
	case string:
		return &JNode{kind: 's', str: ropeStr(x)}, nil
	case json.Number:
		if v, ok := new(big.Int).SetString(string(x), 10); ok && string(x) != "-0" {
			return &JNode{kind: '#', num: pConst(v)}, nil
		}
		return &JNode{kind: '#', txt: string(x)}, nil
	case json.Delim:
		if x == '[' {
			n := &JNode{kind: 'a'}
			for d.More() {
				e, err := parseTok(d)
				if err != nil {
					return nil, err
				}
				n.arr = append(n.arr, e)
			}
			d.Token()
			return n, nil
		}
		n := &JNode{kind: 'o'}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			e, err := parseTok(d)
			if err != nil {
				return nil, err
			}
			n.keys = append(n.keys, k.(string))
			n.arr = append(n.arr, e)
		}
		d.Token()
		return n, nil
	}
	return nil, fmt.Errorf("token")
}

// ---------------------------------------------------------------- struct fields

type jfield struct {
	name   string
	idx    []int
	t      types.Type
	omit   bool
	tagged bool
	ptrs   []bool
}

func jfields(t *types.Struct) []jfield {
	type item struct {
		st  *types.Struct
		idx []int
		ptr []bool
	}
	cur := []item{{st: t}}
	var all []jfield
	seen := map[*types.Struct]bool{}
	for len(cur) > 0 {
		var next []item
		for _, it := range cur {
			if seen[it.st] {
				continue
			}
			seen[it.st] = true
			for i := 0; i < it.st.NumFields(); i++ {
				f := it.st.Field(i)
				tag := reflect.StructTag(it.st.Tag(i)).Get("json")
				ft := f.Type()
				et := ft
				isP := false
				if p, ok := et.(*types.Pointer); ok {
					et = p.Elem()
					isP = true
				}
				es, isS := et.Underlying().(*types.Struct)
				if f.Embedded() {
					if !f.Exported() && !isS {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				if tag == "-" {
					continue
				}
				name, opts, _ := strings.Cut(tag, ",")
				idx := append(append([]int{}, it.idx...), i)
				if f.Embedded() && name == "" && isS {
					next = append(next, item{es, idx, append(append([]bool{}, it.ptr...), isP)})
					continue
				}
				jf := jfield{name: name, idx: idx, t: ft, tagged: name != "", omit: strings.Contains(opts, "omitempty") || strings.Contains(opts, "omitzero"), ptrs: it.ptr}
				if name == "" {
					jf.name = f.Name()
				}
				all = append(all, jf)
			}
		}
		cur = next
	}
	// dominant fields
	by := map[string][]jfield{}
	var names []string
	for _, f := range all {
		if by[f.name] == nil {
			names = append(names, f.name)
		}
		by[f.name] = append(by[f.name], f)
	}
	var out []jfield
	for _, n := range names {
		fs := by[n]
		sort.SliceStable(fs, func(i, j int) bool {
			if len(fs[i].idx) != len(fs[j].idx) {
				return len(fs[i].idx) < len(fs[j].idx)
			}
			return fs[i].tagged && !fs[j].tagged
		})
		if len(fs) > 1 && len(fs[0].idx) == len(fs[1].idx) && fs[0].tagged == fs[1].tagged {
			continue
		}
		out = append(out, fs[0])
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].idx, out[j].idx
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return out
}

// ---------------------------------------------------------------- encoding

type jsonAbort struct{ err iface }

// hasMeth reports a method in the method set of t (t may be an interface).
func (c *Ctx) marshalerOf(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return false
	}
	return c.P.methodByName(t, "MarshalJSON") != nil
}

func isRaw(t types.Type) bool {
	return isNamed(t, "encoding/json", "RawMessage") || isNamed(t, "encoding/json/jsontext", "Value")
}

func (c *Ctx) jenc(v value, t types.Type, addr *value) *JNode {
	if addr != nil {
		v = *addr
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		_ = it
		i := v.(iface)
		if i.t == nil {
			return &JNode{kind: 'n'}
		}
		if h, ok := i.v.(hostObj); ok {
			_ = h
			c.unsupported("JSON encoding of " + h.typeName())
		}
		return c.jenc(i.v, i.t, nil)
	}
	if isRaw(t) {
		if isNilSlice(v) || v == nil {
			return &JNode{kind: 'n'}
		}
		n := c.jparse(v)
		if n == nil {
			panic(jsonAbort{c.hostErrVal("json: error calling MarshalJSON for type json.RawMessage")})
		}
		return n
	}
	if isBig(t) {
		if addr == nil {
			return &JNode{kind: 'o'}
		}
		return &JNode{kind: '#', num: v.(*Poly)}
	}
	if c.marshalerOf(t) || addr != nil && c.marshalerOf(types.NewPointer(t)) {
		recv, rt := v, t
		if !c.marshalerOf(t) {
			recv, rt = addr, types.NewPointer(t)
		}
		if p, ok := recv.(*value); ok && p == nil {
			return &JNode{kind: 'n'}
		}
		if isPtrBig(rt) {
			return &JNode{kind: '#', num: c.bigArg(recv)}
		}
		res := c.call(c.P.methodByName(rt, "MarshalJSON"), []value{recv}, nil).(tuple)
		if e := res[1].(iface); e.t != nil {
			panic(jsonAbort{iface{c.P.errType, &hostErr{msg: "json: error calling MarshalJSON", wrap: []iface{e}}}})
		}
		n := c.jparse(res[0])
		if n == nil {
			panic(jsonAbort{c.hostErrVal("json: error calling MarshalJSON: invalid output")})
		}
		return n
	}
	if c.P.methodByName(t, "MarshalText") != nil {
		c.unsupported("MarshalText")
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if q, ok := v.(*Pred); ok {
				return &JNode{kind: 'b', b: c.branch(q)}
			}
			return &JNode{kind: 'b', b: v.(bool)}
		case u.Info()&types.IsInteger != 0:
			return &JNode{kind: '#', num: c.toPoly(v)}
		case u.Info()&types.IsFloat != 0:
			b, _ := json.Marshal(v.(float64))
			n, _ := parseJSON(b)
			return n
		case u.Info()&types.IsString != 0:
			return &JNode{kind: 's', str: strRope(v)}
		}
	case *types.Pointer:
		p := v.(*value)
		if p == nil {
			return &JNode{kind: 'n'}
		}
		return c.jenc(nil, u.Elem(), p)
	case *types.Struct:
		s := v.(structure)
		n := &JNode{kind: 'o'}
		for _, f := range jfields(u) {
			cell, ft, ok := c.jwalk(s, u, f, false)
			if !ok {
				continue
			}
			var fa *value
			if addr != nil {
				fa = cell
			}
			if f.omit && c.isEmpty(*cell) {
				continue
			}
			n.keys = append(n.keys, f.name)
			n.arr = append(n.arr, c.jenc(*cell, ft, fa))
		}
		return n
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if isNilSlice(v) || v == nil {
				return &JNode{kind: 'n'}
			}
			r := c.bytesRope(v)
			if s, ok := r.concrete(); ok {
				return &JNode{kind: 's', str: ropeStr(base64.StdEncoding.EncodeToString([]byte(s)))}
			}
			return &JNode{kind: 's', str: ropeTok(&Tok{kind: "b64", n: -1, key: r.Key(), in: r})}
		}
		s, _ := v.([]value)
		if s == nil {
			return &JNode{kind: 'n'}
		}
		n := &JNode{kind: 'a'}
		for i := range s {
			n.arr = append(n.arr, c.jenc(s[i], u.Elem(), &s[i]))
		}
		return n
	case *types.Array:
		s := v.(array)
		n := &JNode{kind: 'a'}
		for i := range s {
			var a *value
			if addr != nil {
				a = &s[i]
			}
			n.arr = append(n.arr, c.jenc(s[i], u.Elem(), a))
		}
		return n
	case *types.Map:
		m := v.(*smap)
		if m == nil {
			return &JNode{kind: 'n'}
		}
		n := &JNode{kind: 'o'}
		var ks []string
		vals := map[string]value{}
		for _, k := range m.keys {
			e, ok := m.m[k]
			if !ok {
				continue
			}
			s, ok := e.k.(string)
			if !ok {
				c.unsupported("JSON map key")
			}
			ks = append(ks, s)
			vals[s] = e.v
		}
		sort.Strings(ks)
		for _, k := range ks {
			n.keys = append(n.keys, k)
			n.arr = append(n.arr, c.jenc(vals[k], u.Elem(), nil))
		}
		return n
	}
	c.unsupported("JSON encoding of " + t.String())
	return nil
}

func (c *Ctx) isEmpty(v value) bool {
	switch x := v.(type) {
	case *value:
		return x == nil
	case []value:
		return len(x) == 0
	case iface:
		return x.t == nil
	case int64:
		return x == 0
	case uint64:
		return x == 0
	case string:
		return x == ""
	case bool:
		return !x
	case nil:
		return true
	case *Poly:
		return c.branch(c.eq(x, pInt(0)))
	}
	return false
}

// jwalk follows an embedded-field path; alloc creates nil embedded pointers.
func (c *Ctx) jwalk(s structure, st *types.Struct, f jfield, alloc bool) (*value, types.Type, bool) {
	var cell *value
	var ft types.Type
	for k, i := range f.idx {
		cell = &s[i]
		ft = st.Field(i).Type()
		if k == len(f.idx)-1 {
			break
		}
		if p, ok := ft.(*types.Pointer); ok {
			q := (*cell).(*value)
			if q == nil {
				if !alloc {
					return nil, nil, false
				}
				q = newCell(c.zero(p.Elem()))
				c.set(cell, q)
			}
			s = (*q).(structure)
			st = p.Elem().Underlying().(*types.Struct)
		} else {
			s = (*cell).(structure)
			st = ft.Underlying().(*types.Struct)
		}
	}
	return cell, ft, true
}

// ---------------------------------------------------------------- decoding

type jdec struct {
	c       *Ctx
	saved   iface
	unknown bool
}

func (d *jdec) save(msg string) {
	if d.saved.t == nil {
		d.saved = d.c.hostErrVal("json: cannot unmarshal " + msg)
	}
}

func (d *jdec) unmarshaler(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return false
	}
	return d.c.P.methodByName(t, "UnmarshalJSON") != nil
}

func (d *jdec) callU(recv value, t types.Type, n *JNode) iface {
	c := d.c
	r := c.call(c.P.methodByName(t, "UnmarshalJSON"), []value{recv, c.jbytes(n)}, nil)
	return r.(iface)
}

// dec stores n into the cell p of type t. A non-nil result aborts decoding.
func (d *jdec) dec(n *JNode, t types.Type, p *value) iface {
	c := d.c
	for {
		if _, ok := t.Underlying().(*types.Interface); ok {
			i := (*p).(iface)
			if i.t != nil {
				if pt, ok := i.t.Underlying().(*types.Pointer); ok {
					q, isP := i.v.(*value)
					_, pp := pt.Elem().Underlying().(*types.Pointer)
					if isP && q != nil && (n.kind != 'n' || pp) {
						if d.unmarshaler(i.t) {
							return d.callU(q, i.t, n)
						}
						t, p = pt.Elem(), q
						continue
					}
				}
			}
			break
		}
		pt, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		if n.kind == 'n' {
			c.set(p, (*value)(nil))
			return iface{}
		}
		q := (*p).(*value)
		if q == nil {
			q = newCell(c.zero(pt.Elem()))
			c.set(p, q)
		}
		if d.unmarshaler(t) {
			return d.callU(q, t, n)
		}
		t, p = pt.Elem(), q
	}
	if isRaw(t) {
		c.set(p, c.jbytes(n))
		return iface{}
	}
	if pt := types.NewPointer(t); d.unmarshaler(pt) {
		return d.callU(p, pt, n)
	}
	if c.P.methodByName(types.NewPointer(t), "UnmarshalText") != nil && n.kind == 's' {
		c.unsupported("UnmarshalText")
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if n.kind == 'n' {
			c.set(p, iface{})
			return iface{}
		}
		if u.NumMethods() > 0 {
			d.save("value into Go interface")
			return iface{}
		}
		c.set(p, c.jany(n))
		return iface{}
	case *types.Basic:
		if n.kind == 'n' {
			return iface{}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				d.save("value into bool")
				return iface{}
			}
			c.set(p, n.b)
			return iface{}
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				d.save("value into string")
				return iface{}
			}
			c.set(p, ropeVal(n.str))
			return iface{}
		case u.Info()&types.IsInteger != 0:
			if n.kind != '#' {
				d.save("value into integer")
				return iface{}
			}
			if n.num == nil {
				if n.txt == "-0" {
					if u.Info()&types.IsUnsigned == 0 {
						c.set(p, int64(0))
						return iface{}
					}
				}
				d.save("number " + n.txt + " into integer")
				return iface{}
			}
			bits, signed := c.intInfo(t)
			lo, hi := zero, new(big.Int).Sub(new(big.Int).Lsh(one, uint(bits)), one)
			if signed {
				h := new(big.Int).Lsh(one, uint(bits-1))
				lo, hi = new(big.Int).Neg(h), new(big.Int).Sub(h, one)
			}
			if !c.branch(mkAnd(c.le(pConst(lo), n.num), c.le(n.num, pConst(hi)))) {
				d.save("number out of range into integer")
				return iface{}
			}
			c.set(p, c.intVal(n.num, signed))
			return iface{}
		case u.Info()&types.IsFloat != 0:
			if n.kind != '#' {
				d.save("value into float")
				return iface{}
			}
			if n.num != nil {
				if !n.num.isConst() {
					c.unsupported("symbolic float")
				}
				f, _ := new(big.Float).SetInt(n.num.constVal()).Float64()
				c.set(p, f)
				return iface{}
			}
			f, _ := strconv.ParseFloat(n.txt, 64)
			c.set(p, f)
			return iface{}
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && n.kind == 's' {
			if len(n.str.segs) == 1 && n.str.segs[0].tok != nil && n.str.segs[0].tok.kind == "b64" {
				c.set(p, c.bytesVal(n.str.segs[0].tok.in))
				return iface{}
			}
			s, ok := n.str.concrete()
			if !ok {
				c.unsupported("symbolic base64")
			}
			b, err := base64.StdEncoding.DecodeString(s)
			if err != nil {
				if d.saved.t == nil {
					d.saved = c.hostErrVal(err.Error())
				}
				return iface{}
			}
			c.set(p, c.bytesVal(ropeStr(string(b))))
			return iface{}
		}
		switch n.kind {
		case 'n':
			c.set(p, []value(nil))
			return iface{}
		case 'a':
		default:
			d.save("value into slice")
			return iface{}
		}
		s := make([]value, len(n.arr))
		old, _ := (*p).([]value)
		for i := range s {
			if i < len(old) {
				s[i] = old[i]
			} else {
				s[i] = c.zero(u.Elem())
			}
		}
		for i := range s {
			if e := d.dec(n.arr[i], u.Elem(), &s[i]); e.t != nil {
				return e
			}
		}
		c.set(p, s)
		return iface{}
	case *types.Array:
		switch n.kind {
		case 'n':
			return iface{}
		case 'a':
		default:
			d.save("value into array")
			return iface{}
		}
		s := (*p).(array)
		for i := range s {
			if i < len(n.arr) {
				if e := d.dec(n.arr[i], u.Elem(), &s[i]); e.t != nil {
					return e
				}
			} else {
				c.store(&s[i], c.zero(u.Elem()))
			}
		}
		return iface{}
	case *types.Struct:
		switch n.kind {
		case 'n':
			return iface{}
		case 'o':
		default:
			d.save("value into struct")
			return iface{}
		}
		fs := jfields(u)
		for i, k := range n.keys {
			var f *jfield
			for j := range fs {
				if fs[j].name == k {
					f = &fs[j]
					break
				}
			}
			if f == nil {
				for j := range fs {
					if strings.EqualFold(fs[j].name, k) {
						f = &fs[j]
						break
					}
				}
			}
			if f == nil {
				if d.unknown {
					if d.saved.t == nil {
						d.saved = c.hostErrVal("json: unknown field")
					}
				}
				continue
			}
			cell, ft, _ := c.jwalk((*p).(structure), u, *f, true)
			if e := d.dec(n.arr[i], ft, cell); e.t != nil {
				return e
			}
		}
		return iface{}
	case *types.Map:
		switch n.kind {
		case 'n':
			c.set(p, (*smap)(nil))
			return iface{}
		case 'o':
		default:
			d.save("value into map")
			return iface{}
		}
		m, _ := (*p).(*smap)
		if m == nil {
			m = &smap{m: map[string]mapEnt{}}
			c.set(p, m)
		}
		for i, k := range n.keys {
			cell := newCell(c.zero(u.Elem()))
			if e := d.dec(n.arr[i], u.Elem(), cell); e.t != nil {
				return e
			}
			m.put(c, k, *cell)
		}
		return iface{}
	}
	c.unsupported("JSON decoding into " + t.String())
	return iface{}
}

func (c *Ctx) jany(n *JNode) iface {
	switch n.kind {
	case 'n':
		return iface{}
	case 'b':
		return iface{types.Typ[types.Bool], n.b}
	case 's':
		return iface{types.Typ[types.String], ropeVal(n.str)}
	case '#':
		if n.num != nil && n.num.isConst() {
			f, _ := new(big.Float).SetInt(n.num.constVal()).Float64()
			return iface{types.Typ[types.Float64], f}
		}
		c.unsupported("symbolic number into any")
	case 'a':
		any := types.NewInterfaceType(nil, nil)
		s := make([]value, len(n.arr))
		for i := range s {
			s[i] = c.jany(n.arr[i])
		}
		return iface{types.NewSlice(any), s}
	case 'o':
		any := types.NewInterfaceType(nil, nil)
		m := &smap{m: map[string]mapEnt{}}
		for i, k := range n.keys {
			m.put(c, k, c.jany(n.arr[i]))
		}
		return iface{types.NewMap(types.Typ[types.String], any), m}
	}
	c.unsupported("any")
	return iface{}
}

func (c *Ctx) jsonMarshal(v iface) (res tuple) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(jsonAbort); ok {
				res = tuple{[]value(nil), a.err}
				return
			}
			panic(r)
		}
	}()
	var n *JNode
	if v.t == nil {
		n = &JNode{kind: 'n'}
	} else {
		n = c.jenc(v.v, v.t, nil)
	}
	return tuple{c.jbytes(n), iface{}}
}

func (c *Ctx) jsonUnmarshal(data value, v iface, unknown bool) iface {
	n := c.jparse(data)
	if n == nil {
		return c.hostErrVal("invalid character or unexpected end of JSON input")
	}
	pt, ok := types.Type(nil), false
	if v.t != nil {
		if p, ok2 := v.t.Underlying().(*types.Pointer); ok2 {
			pt, ok = p.Elem(), true
		}
	}
	p, isP := v.v.(*value)
	if !ok || !isP || p == nil {
		return c.hostErrVal("json: Unmarshal(non-pointer or nil)")
	}
	d := &jdec{c: c, unknown: unknown}
	if d.unmarshaler(v.t) {
		return d.callU(p, v.t, n)
	}
	if e := d.dec(n, pt, p); e.t != nil {
		return e
	}
	return d.saved
}

type hostDecoder struct {
	src     value
	unknown bool
	num     bool
}

// bigUnmarshal is (*big.Int).UnmarshalJSON.
func (c *Ctx) bigUnmarshal(z value, data value, null bool) value {
	r := c.bytesRope(data)
	if s, ok := r.concrete(); ok {
		if null && s == "null" {
			return iface{}
		}
		v := new(big.Int)
		if err := v.UnmarshalText([]byte(s)); err != nil {
			return c.hostErrVal("math/big: cannot unmarshal into a *big.Int")
		}
		c.bigSet(z, pConst(v))
		return iface{}
	}
	if len(r.segs) == 1 && r.segs[0].tok != nil {
		t := r.segs[0].tok
		switch {
		case t.kind == "dec":
			c.bigSet(z, t.p)
			return iface{}
		case t.kind == "json":
			if t.ast.kind == '#' && t.ast.num != nil {
				c.bigSet(z, t.ast.num)
				return iface{}
			}
			return c.hostErrVal("math/big: cannot unmarshal into a *big.Int")
		}
		if t.kind == "sym" {
			if c.branch(&Pred{op: pVar, smt: fmt.Sprintf("isnum_%x", shortHash(t.Key())), key: "V:isnum" + t.Key()}) {
				c.bigSet(z, c.sym(fmt.Sprintf("num_%x", shortHash(t.Key())), cNondet, nil, nil))
				return iface{}
			}
			return c.hostErrVal("math/big: cannot unmarshal into a *big.Int")
		}
	}
	c.note("decoding of opaque bytes as a number taken to fail")
	return c.hostErrVal("math/big: cannot unmarshal into a *big.Int")
}

func init() {
	reg("encoding/json.Marshal", func(c *Ctx, a []value) value { return c.jsonMarshal(a[0].(iface)) })
	reg("encoding/json.MarshalIndent", func(c *Ctx, a []value) value { return c.jsonMarshal(a[0].(iface)) })
	reg("encoding/json.Unmarshal", func(c *Ctx, a []value) value { return c.jsonUnmarshal(a[0], a[1].(iface), false) })
	reg("encoding/json.Valid", func(c *Ctx, a []value) value { return c.jparse(a[0]) != nil })
	reg("(encoding/json.RawMessage).MarshalJSON", func(c *Ctx, a []value) value {
		if isNilSlice(a[0]) {
			return tuple{c.bytesVal(ropeStr("null")), iface{}}
		}
		return tuple{a[0], iface{}}
	})
	reg("(*encoding/json.RawMessage).UnmarshalJSON", func(c *Ctx, a []value) value {
		p := a[0].(*value)
		if p == nil {
			return c.hostErrVal("json.RawMessage: UnmarshalJSON on nil pointer")
		}
		c.set(p, a[1])
		return iface{}
	})
	src := func(c *Ctx, v value) value {
		i := v.(iface)
		if p, ok := i.v.(*value); ok && p != nil {
			if r, ok := (*p).(*Rope); ok {
				return r
			}
		}
		c.unsupported("JSON decoder over another reader")
		return nil
	}
	take := func(c *Ctx, v value) value {
		r := src(c, v)
		c.set(v.(iface).v.(*value), &Rope{})
		return r
	}
	reg("io.Copy", func(c *Ctx, a []value) value {
		r := take(c, a[1]).(*Rope)
		t, ok := c.callMethod(a[0].(iface), "Write", c.bytesVal(r)).(tuple)
		if !ok {
			c.unsupported("io.Copy")
		}
		return tuple{c.lenOf(r), t[1]}
	})
	reg("io.ReadAll", func(c *Ctx, a []value) value { return tuple{c.bytesVal(take(c, a[0]).(*Rope)), iface{}} })
	reg("bytes.NewReader", func(c *Ctx, a []value) value { return newCell(c.bytesRope(a[0])) })
	reg("strings.NewReader", func(c *Ctx, a []value) value { return newCell(strRope(a[0])) })
	reg("encoding/json.NewDecoder", func(c *Ctx, a []value) value { return newCell(&hostDecoder{src: src(c, a[0])}) })
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(c *Ctx, a []value) value {
		(*a[0].(*value)).(*hostDecoder).unknown = true
		return nil
	})
	reg("(*encoding/json.Decoder).UseNumber", func(c *Ctx, a []value) value { return nil })
	reg("(*encoding/json.Decoder).Decode", func(c *Ctx, a []value) value {
		d := (*a[0].(*value)).(*hostDecoder)
		if d.src == nil {
			return *c.hostGlobalByName("io.EOF")
		}
		s := d.src
		d.src = nil
		return c.jsonUnmarshal(s, a[1].(iface), d.unknown)
	})
	reg("(*encoding/json.Decoder).More", func(c *Ctx, a []value) value {
		return (*a[0].(*value)).(*hostDecoder).src != nil
	})
	const I = "(*math/big.Int)."
	mj := func(c *Ctx, a []value) value {
		if p := a[0].(*value); p == nil {
			return tuple{c.bytesVal(ropeStr("null")), iface{}}
		}
		return tuple{c.jbytes(&JNode{kind: '#', num: c.bigArg(a[0])}), iface{}}
	}
	reg(I+"MarshalJSON", mj)
	reg(I+"MarshalText", func(c *Ctx, a []value) value {
		if p := a[0].(*value); p == nil {
			return tuple{c.bytesVal(ropeStr("<nil>")), iface{}}
		}
		return tuple{c.bytesVal(strRope(c.decVal(c.bigArg(a[0])))), iface{}}
	})
	reg(I+"UnmarshalJSON", func(c *Ctx, a []value) value { return c.bigUnmarshal(a[0], a[1], true) })
	reg(I+"UnmarshalText", func(c *Ctx, a []value) value { return c.bigUnmarshal(a[0], a[1], false) })
	reg("encoding/base64.NewEncoding", func(c *Ctx, a []value) value { return newCell(int64(0)) })
	b64 := func(c *Ctx, r *Rope) value {
		if s, ok := r.concrete(); ok {
			return base64.StdEncoding.EncodeToString([]byte(s))
		}
		return ropeTok(&Tok{kind: "b64", n: -1, key: r.Key(), in: r})
	}
	reg("(*encoding/base64.Encoding).EncodeToString", func(c *Ctx, a []value) value { return b64(c, c.bytesRope(a[1])) })
	reg("(*encoding/base64.Encoding).DecodeString", func(c *Ctx, a []value) value {
		r := strRope(a[1])
		if len(r.segs) == 1 && r.segs[0].tok != nil && r.segs[0].tok.kind == "b64" {
			return tuple{c.bytesVal(r.segs[0].tok.in), iface{}}
		}
		b, err := base64.StdEncoding.DecodeString(c.mustStr(a[1], "base64"))
		e := iface{}
		if err != nil {
			e = c.hostErrVal(err.Error())
		}
		return tuple{c.bytesVal(ropeStr(string(b))), e}
	})
}

// jeq is structural equality of two documents.
func (c *Ctx) jeq(a, b *JNode) *Pred {
	if a.kind != b.kind || len(a.arr) != len(b.arr) {
		return tFalse
	}
	switch a.kind {
	case 'b':
		return boolPred(a.b == b.b)
	case '#':
		if a.num != nil && b.num != nil {
			return c.eq(a.num, b.num)
		}
		return boolPred(a.num == nil && b.num == nil && a.txt == b.txt)
	case 's':
		return c.ropeEq(a.str, b.str)
	case 'x':
		return boolPred(a.txt == b.txt)
	}
	q := tTrue
	for i := range a.arr {
		if a.kind == 'o' && a.keys[i] != b.keys[i] {
			return tFalse
		}
		q = mkAnd(q, c.jeq(a.arr[i], b.arr[i]))
	}
	return q
}

// hostGlobalByName returns the cell of a modelled global, e.g. "io.EOF".
func (c *Ctx) hostGlobalByName(n string) *value {
	i := strings.LastIndex(n, ".")
	if p := c.P.pkgs[n[:i]]; p != nil {
		if g := p.Var(n[i+1:]); g != nil {
			return c.global(g)
		}
	}
	e := value(c.hostErrVal(n))
	return &e
}
