// Package verifrt is the vocabulary of the verification harnesses. The symbolic
// engine gives these functions a symbolic meaning; this file is the native one,
// used to replay a solver model against the compiled code.
package verifrt

import (
	"bytes"
	"crypto/elliptic"
	"crypto/rand"
	"encoding"
	"encoding/json"
	"fmt"
	"math/big"
	mrand "math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"
)

type replayFile struct {
	Harness  string
	Vals     map[string]string
	Draws    []string // "" = any value
	DrawMax  []string
	Hashes   []string
	Label    string
	Attempts int
	Seconds  int
	Seed     int64
	Thorough bool
}

type discard struct{}
type assertFail struct{ label string }

var st struct {
	r         replayFile
	rng       *mrand.Rand
	attempt   int
	draw      int
	drawn     []*big.Int
	pinned    bool
	forced    *big.Int
	nforced   int
	drawLabel string
	drawLimit int
	again     []*big.Int
	recHash   bool
	script    bool
	ranges    map[string]*bitRange
	exists    map[string]*possible

	concurrent bool
	nhash     int
	table     map[string]string
	hashes    []*big.Int
	labels    []string
	failed    []string
	reached   map[string]bool
}

// source feeds crypto/rand: the next scripted draw, or random bytes.
type source struct{}

func (source) Read(p []byte) (int, error) {
	if st.concurrent {
		// straight from the system: a lock in here would order the goroutines
		n, _, _ := syscall.RawSyscall(318, uintptr(unsafe.Pointer(&p[0])), uintptr(len(p)), 0)
		if n > uintptr(len(p)) {
			panic("getrandom")
		}
		return int(n), nil
	}
	i := st.draw
	if st.drawLabel != "" && i >= st.drawLimit {
		l := st.drawLabel
		st.drawLabel = ""
		Assume(l != "-")
		Assert(l, false)
	}
	st.draw++
	var v *big.Int
	if len(st.again) > 0 {
		if st.again[0] != nil {
			v = new(big.Int).Set(st.again[0])
		}
		st.again = st.again[1:]
	} else if st.forced != nil && st.nforced < 64 {
		st.nforced++
		v = new(big.Int).Set(st.forced)
	}
	if v != nil {
		return give(v, p)
	}
	if st.attempt == 0 || st.pinned {
		if i < len(st.r.Draws) && st.r.Draws[i] != "" {
			v, _ = new(big.Int).SetString(st.r.Draws[i], 10)
		}
	}
	if v == nil {
		v = new(big.Int)
		b := make([]byte, len(p))
		st.rng.Read(b)
		v.SetBytes(b)
		// crypto/rand.Int rejects values >= max and reads again, which would
		// shift the script: stay below the known maximum
		if i < len(st.r.DrawMax) && st.r.DrawMax[i] != "" {
			if m, ok := new(big.Int).SetString(st.r.DrawMax[i], 10); ok && m.Sign() > 0 {
				v.Mod(v, m)
			}
		}
	}
	return give(v, p)
}

func give(v *big.Int, p []byte) (int, error) {
	if v.BitLen() > 8*len(p) {
		v.Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(8*len(p))))
	}
	v.FillBytes(p)
	st.drawn = append(st.drawn, new(big.Int).Set(v))
	return len(p), nil
}

func val(name string) (*big.Int, bool) {
	s, ok := st.r.Vals[name]
	if !ok || s == "" {
		return nil, false
	}
	v, ok := new(big.Int).SetString(s, 10)
	return v, ok
}

func Big(name string, lo, hi *big.Int) *big.Int {
	d := new(big.Int).Sub(hi, lo)
	d.Add(d, big.NewInt(1))
	if v, ok := val(name); ok {
		// The solver picks values of coordinates and hashes as well, which no
		// input can be computed from: every other attempt looks for other
		// large inputs with the property.
		if st.attempt < 4 || st.attempt%4 < 2 || d.BitLen() <= 64 {
			return v
		}
		if st.rng.Intn(2) == 0 {
			v.Add(v, big.NewInt(int64(st.rng.Intn(129)-64)))
			if v.Cmp(lo) >= 0 && v.Cmp(hi) <= 0 {
				return v
			}
		}
		return new(big.Int).Add(lo, new(big.Int).Rand(st.rng, d))
	}
	switch st.rng.Intn(8) {
	case 0:
		return new(big.Int).Set(lo)
	case 1:
		return new(big.Int).Set(hi)
	case 2:
		k := big.NewInt(int64(st.rng.Intn(5)))
		return new(big.Int).Add(lo, k.Mod(k, d))
	}
	return new(big.Int).Add(lo, new(big.Int).Rand(st.rng, d))
}

func Int(name string, lo, hi int) int {
	if v, ok := val(name); ok {
		return int(v.Int64())
	}
	span := new(big.Int).Sub(big.NewInt(int64(hi)), big.NewInt(int64(lo)))
	v := new(big.Int).Rand(st.rng, span.Add(span, big.NewInt(1)))
	return int(v.Add(v, big.NewInt(int64(lo))).Int64())
}

func Int64(name string) int64 {
	if v, ok := val(name); ok {
		return int64(new(big.Int).And(v, new(big.Int).SetUint64(^uint64(0))).Uint64())
	}
	return int64(st.rng.Uint64())
}

func Bool(name string) bool {
	if v, ok := val(name); ok {
		return v.Sign() != 0
	}
	return st.rng.Intn(2) == 1
}

func Choice(name string, n int) int {
	if v, ok := val(name); ok {
		return int(v.Int64())
	}
	return st.rng.Intn(n)
}

func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	if v, ok := val(name); ok && (st.attempt < 4 || st.attempt%4 != 3) {
		if st.attempt >= 4 && st.attempt%4 == 2 {
			v.Add(v, big.NewInt(int64(st.rng.Intn(129)-64)))
			v.Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
		}
		v.FillBytes(b)
		return b
	}
	st.rng.Read(b)
	return b
}

func Assume(b bool) {
	if !b {
		panic(discard{})
	}
}

func Assert(label string, b bool) {
	if !b {
		st.failed = append(st.failed, label)
		panic(assertFail{label})
	}
}

func Reach(label string) { st.reached[label] = true }
func Thorough() bool     { return st.r.Thorough }
func LoopBound(n int)    {}
func Bound(s string)     {}
func Draws() []*big.Int  { return st.drawn }

// FullRange checks that the low bits of v can have any value: the solver looks
// for unrelated patterns; natively many samples must be affinely independent.
func FullRange(label string, v *big.Int, bits int) {
	r := st.ranges[label]
	if r == nil {
		r = &bitRange{bits: bits, basis: map[int]*big.Int{}}
		st.ranges[label] = r
	}
	low := new(big.Int).Mod(v, new(big.Int).Lsh(big.NewInt(1), uint(bits)))
	r.n++
	if r.first == nil {
		r.first = low
		return
	}
	low.Xor(low, r.first)
	for low.Sign() != 0 {
		b := r.basis[low.BitLen()]
		if b == nil {
			r.basis[low.BitLen()] = low
			return
		}
		low.Xor(low, b)
	}
}

// raceErrors is set in binaries built with the race detector.
var raceErrors func() int

// Shared calls f. No call may write to what the roots or package variables hold
// without a lock: natively f runs in several goroutines under the race detector.
func Shared(label string, f func(), roots ...interface{}) {
	if raceErrors == nil || st.r.Label != label {
		f()
		return
	}
	before := raceErrors()
	st.concurrent = true
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			f()
			f()
		}()
	}
	wg.Wait()
	st.concurrent = false
	Assert(label, raceErrors() == before)
}

// Exists checks that cond can be true. Natively at least so many attempts
// must all find it false before this counts as refuted.
func Exists(label string, cond bool, attempts int) {
	r := st.exists[label]
	if r == nil {
		r = &possible{need: attempts}
		st.exists[label] = r
	}
	r.n++
	r.hit = r.hit || cond
}

type possible struct {
	need, n int
	hit     bool
}

type bitRange struct {
	bits, n int
	first   *big.Int
	basis   map[int]*big.Int
}

// ScriptHashes lets the replay choose the hash outputs from here on.
func ScriptHashes() { st.script = true }

// RecordHashes starts a list of the SHA-256 sums the repository computes.
func RecordHashes() { st.recHash, st.hashes = true, nil }

// Hashes are the sums since RecordHashes, in order.
func Hashes() []*big.Int { return st.hashes }

// ForceDraws makes every draw from crypto/rand yield v, where its range allows it.
func ForceDraws(v *big.Int) { st.forced = v }

// DrawLimit asserts that at most n further draws are made ("" lifts the limit,
// "-" discards the run instead).
func DrawLimit(label string, n int) { st.drawLabel, st.drawLimit = label, st.draw+n }

// Redraw makes the next draws repeat the draws from..to-1, except that draw j is made afresh.
func Redraw(from, to, j int) {
	st.again = nil
	for i := from; i < to; i++ {
		var v *big.Int
		if i != j && i < len(st.drawn) {
			v = st.drawn[i]
		}
		st.again = append(st.again, v)
	}
}

// Panics reports whether f panics.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case discard, assertFail:
				panic(r)
			}
			p = true
		}
	}()
	f()
	return false
}

// ---------------------------------------------------------------- deep snapshots

type Snapshot struct{ s string }

func Snap(vs ...any) *Snapshot {
	var b strings.Builder
	for _, v := range vs {
		snap(&b, reflect.ValueOf(v), 0, map[uintptr]bool{})
		b.WriteByte('|')
	}
	return &Snapshot{b.String()}
}

func Same(a, b *Snapshot) bool { return a.s == b.s }

var bigT = reflect.TypeOf(big.Int{})

// Numbers lists the integers in exported places of vs, those of group elements excluded.
func Numbers(vs ...any) []*big.Int {
	var out []*big.Int
	for _, v := range vs {
		numbers(reflect.ValueOf(v), &out, 0)
	}
	return out
}

func numbers(v reflect.Value, out *[]*big.Int, depth int) {
	if !v.IsValid() || depth > 40 {
		return
	}
	t := v.Type()
	if t == reflect.PointerTo(bigT) {
		if !v.IsNil() {
			*out = append(*out, new(big.Int).Set(v.Interface().(*big.Int)))
		}
		return
	}
	if t == bigT {
		x := v.Interface().(big.Int)
		*out = append(*out, new(big.Int).Set(&x))
		return
	}
	if strings.HasSuffix(t.PkgPath(), "/group") {
		return
	}
	switch v.Kind() {
	case reflect.Pointer, reflect.Interface:
		if !v.IsNil() {
			numbers(v.Elem(), out, depth+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if t.Field(i).PkgPath == "" {
				numbers(v.Field(i), out, depth+1)
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			numbers(v.Index(i), out, depth+1)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		*out = append(*out, big.NewInt(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		*out = append(*out, new(big.Int).SetUint64(v.Uint()))
	}
}

func snap(b *strings.Builder, v reflect.Value, depth int, seen map[uintptr]bool) {
	if !v.IsValid() {
		b.WriteString("nil")
		return
	}
	if depth > 40 {
		return
	}
	if v.Type() == bigT {
		// the words of the number, by value
		if v.CanAddr() {
			f := v.FieldByName("abs")
			neg := v.FieldByName("neg").Bool()
			fmt.Fprintf(b, "#%v:", neg)
			for i := 0; i < f.Len(); i++ {
				fmt.Fprintf(b, "%x.", f.Index(i).Uint())
			}
			return
		}
	}
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		if v.CanInterface() {
			if m, ok := v.Interface().(encoding.BinaryMarshaler); ok {
				data, err := m.MarshalBinary()
				fmt.Fprintf(b, "%s(%x,%v)", v.Type(), data, err != nil)
				return
			}
		}
		if seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		snap(b, v.Elem(), depth+1, seen)
		delete(seen, v.Pointer())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String())
		snap(b, v.Elem(), depth+1, seen)
	case reflect.Struct:
		b.WriteByte('{')
		for i := 0; i < v.NumField(); i++ {
			snap(b, v.Field(i), depth+1, seen)
			b.WriteByte(',')
		}
		b.WriteByte('}')
	case reflect.Slice, reflect.Array:
		fmt.Fprintf(b, "[%d:", v.Len())
		for i := 0; i < v.Len(); i++ {
			snap(b, v.Index(i), depth+1, seen)
			b.WriteByte(',')
		}
		b.WriteByte(']')
	case reflect.Map:
		var ks []string
		for _, k := range v.MapKeys() {
			var s strings.Builder
			snap(&s, k, depth+1, seen)
			s.WriteString("=>")
			snap(&s, v.MapIndex(k), depth+1, seen)
			ks = append(ks, s.String())
		}
		sort.Strings(ks)
		fmt.Fprintf(b, "%v", ks)
	case reflect.Bool:
		fmt.Fprint(b, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(b, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(b, v.Uint())
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Float64, reflect.Float32:
		fmt.Fprint(b, v.Float())
	}
}

// ---------------------------------------------------------------- JSON mutation

type jnode struct {
	kind byte
	raw  string
	kids []*jnode
	keys []string
}

func parse(d *json.Decoder) *jnode {
	t, err := d.Token()
	if err != nil {
		panic(err)
	}
	switch x := t.(type) {
	case nil:
		return &jnode{kind: 'n', raw: "null"}
	case bool:
		return &jnode{kind: 'b', raw: fmt.Sprint(x)}
	case string:
		b, _ := json.Marshal(x)
		return &jnode{kind: 's', raw: string(b)}
	case json.Number:
		return &jnode{kind: '#', raw: string(x)}
	case json.Delim:
		n := &jnode{kind: 'a'}
		if x == '{' {
			n.kind = 'o'
		}
		for d.More() {
			if n.kind == 'o' {
				k, _ := d.Token()
				n.keys = append(n.keys, k.(string))
			}
			n.kids = append(n.kids, parse(d))
		}
		d.Token()
		return n
	}
	panic("json token")
}

func (n *jnode) render(b *bytes.Buffer) {
	switch n.kind {
	case 'a', 'o':
		b.WriteByte(map[byte]byte{'a': '[', 'o': '{'}[n.kind])
		for i, k := range n.kids {
			if i > 0 {
				b.WriteByte(',')
			}
			if n.kind == 'o' {
				q, _ := json.Marshal(n.keys[i])
				b.Write(q)
				b.WriteByte(':')
			}
			k.render(b)
		}
		b.WriteByte(map[byte]byte{'a': ']', 'o': '}'}[n.kind])
	default:
		b.WriteString(n.raw)
	}
}

type jsite struct {
	parent *jnode
	idx    int
	node   *jnode
	op     string
}

// sites enumerates every (position, mutation) pair in document order.
func sites(n, parent *jnode, idx int, path string, prefix string, out []jsite) []jsite {
	if strings.HasPrefix(path, prefix) {
		ops := []string{"null", "str", "num", "arr", "obj", "bool"}
		if parent != nil {
			ops = append(ops, "del")
		}
		if n.kind == 'a' && len(n.kids) > 0 {
			ops = append(ops, "pop", "dup")
		}
		for _, o := range ops {
			out = append(out, jsite{parent, idx, n, o})
		}
	}
	for i, k := range n.kids {
		if n.kind == 'a' && i != 0 && i != len(n.kids)-1 {
			continue
		}
		seg := fmt.Sprint(i)
		if n.kind == 'o' {
			seg = n.keys[i]
		}
		p := path + "." + seg
		out = sites(k, n, i, p, prefix, out)
	}
	return out
}

// JMutate applies one mutation at a position whose path starts with prefix
// (".a.b"); which one is symbolic (a fork per position and kind).
func JMutate(name string, doc []byte, prefix string) []byte {
	d := json.NewDecoder(bytes.NewReader(doc))
	d.UseNumber()
	root := parse(d)
	ss := sites(root, nil, 0, "", prefix, nil)
	i := Choice(name, len(ss))
	s := ss[i%len(ss)]
	m := &jnode{}
	switch s.op {
	case "null":
		m = &jnode{kind: 'n', raw: "null"}
	case "str":
		m = &jnode{kind: 's', raw: `"x"`}
	case "num":
		lim := new(big.Int).Lsh(big.NewInt(1), 3200)
		m = &jnode{kind: '#', raw: Big(name+".num", new(big.Int).Neg(lim), lim).String()}
	case "arr":
		m = &jnode{kind: 'a'}
	case "obj":
		m = &jnode{kind: 'o'}
	case "bool":
		m = &jnode{kind: 'b', raw: "true"}
	case "del":
		s.parent.kids = append(s.parent.kids[:s.idx:s.idx], s.parent.kids[s.idx+1:]...)
		if s.parent.kind == 'o' {
			s.parent.keys = append(s.parent.keys[:s.idx:s.idx], s.parent.keys[s.idx+1:]...)
		}
	case "pop":
		s.node.kids = s.node.kids[:len(s.node.kids)-1]
	case "dup":
		s.node.kids = append(s.node.kids, s.node.kids[len(s.node.kids)-1])
	}
	if m.kind != 0 {
		if s.parent == nil {
			root = m
		} else {
			s.parent.kids[s.idx] = m
		}
	}
	var b bytes.Buffer
	root.render(&b)
	return b.Bytes()
}

// ---------------------------------------------------------------- replay driver

type result struct {
	Failed   string
	Panic    string
	Attempts int
	Complete int
	Vals     map[string]string
	Draws    []string
	Reached  []string
}

func attempt(f func()) (failed, panicMsg string, complete bool) {
	st.draw, st.drawn, st.failed = 0, nil, nil
	st.recHash, st.hashes = false, nil
	st.script, st.nhash, st.table = false, 0, map[string]string{}
	st.forced, st.nforced, st.again, st.drawLabel = nil, 0, nil, ""
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case discard:
			case assertFail:
				failed = x.label
			default:
				panicMsg = fmt.Sprint(r)
				failed = "panic"
			}
		}
	}()
	f()
	return "", "", true
}

// Main runs the harness named in the replay file.
func Main(fns map[string]func()) {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		panic(err)
	}
	var list []replayFile
	if err := json.Unmarshal(b, &list); err != nil {
		panic(err)
	}
	rand.Reader = source{}
	var out []result
	for _, r := range list {
		f := fns[r.Harness]
		if f == nil {
			out = append(out, result{})
			continue
		}
		st.r = r
		st.reached = map[string]bool{}
		st.ranges = map[string]*bitRange{}
		st.exists = map[string]*possible{}
		st.rng = mrand.New(mrand.NewSource(r.Seed + 1))
		dl := time.Now().Add(time.Duration(r.Seconds) * time.Second)
		var res result
		for i := 0; i < r.Attempts; i++ {
			st.attempt = i
			st.pinned = i%2 == 0 || i < 4
			res.Attempts++
			fl, pm, done := attempt(f)
			if done {
				res.Complete++
			}
			if fl != "" {
				res.Failed, res.Panic = fl, pm
				for _, d := range st.drawn {
					res.Draws = append(res.Draws, d.String())
				}
				break
			}
			if time.Now().After(dl) {
				break
			}
		}
		if x := st.ranges[r.Label]; x != nil && res.Failed == "" && x.n >= x.bits+64 && len(x.basis) < x.bits {
			res.Failed = r.Label
		}
		if x := st.exists[r.Label]; x != nil && res.Failed == "" && x.n >= x.need && !x.hit {
			res.Failed = r.Label
		}
		for k := range st.reached {
			res.Reached = append(res.Reached, k)
		}
		sort.Strings(res.Reached)
		out = append(out, res)
		// after every entry: a hang in a later one must not lose this one
		ob, _ := json.Marshal(out)
		if err := os.WriteFile(os.Getenv("VERIF_REPLAY_OUT"), ob, 0o644); err != nil {
			panic(err)
		}
	}
}

// OnCurve: the coordinates are in the field and satisfy the equation of P-256
// (0), P-384 (1) or secp256k1 (2). The engine has it as a predicate symbol that
// the decoders' own curve checks share.
func OnCurve(curve int, x, y *big.Int) bool {
	if x == nil || y == nil || x.Sign() < 0 || y.Sign() < 0 {
		return false
	}
	var p, a, b *big.Int
	switch curve {
	case 0:
		q := elliptic.P256().Params()
		p, a, b = q.P, big.NewInt(-3), q.B
	case 1:
		q := elliptic.P384().Params()
		p, a, b = q.P, big.NewInt(-3), q.B
	default:
		p, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
		a, b = new(big.Int), big.NewInt(7)
	}
	if x.Cmp(p) >= 0 || y.Cmp(p) >= 0 {
		return false
	}
	r := new(big.Int).Mul(x, x)
	r.Add(r, a)
	r.Mul(r, x)
	r.Add(r, b)
	r.Sub(r, new(big.Int).Mul(y, y))
	return r.Mod(r, p).Sign() == 0
}
