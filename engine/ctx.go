package main

import (
	"fmt"
	"go/types"
	"io"
	"math/big"
	"os"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- control-flow signals of the engine

type targetPanic struct {
	v   value
	msg string
}
type pathEnd struct{ reason string }
type specAbort struct{ why string }
type unsupportedErr struct{ msg string }

// event is one recorded outcome of a decision made while executing a path.
type event struct {
	kind byte // 'f' feasibility (0 none,1 T only,2 F only,3 both) ; 'c' choice; 'v' value
	n    int
	v    *big.Int
}

type ndRec struct {
	Name string
	p    *Poly
	bv   string
	kind string
}
type randRec struct {
	p   *Poly
	max *big.Int
	raw bool

	upper *Poly // the bound itself, if it is not constant
}

type cexCand struct {
	label  string
	model  *Model
	why    string
	detail string
	race   bool
	replay *Replay
	pcs    []*Pred
	log    []event
}

// Ctx is the state of one path execution.
type Ctx struct {
	P            *Program
	H            *Harness
	atoms        []*Atom
	atomIdx      map[string]*Atom
	dlogTab      map[string]*Poly
	pc           []*Pred
	pcDeps       []map[string]bool
	pcKeys       map[string]bool
	zeros        []zeroFact
	weak         int
	solver       *Solver
	st           *Stats
	qcache       map[string]int
	queryTimeout int
	dumpQ        io.Writer
	bvWidth      map[string]int
	globals      map[*ssa.Global]*value
	inited       map[*ssa.Package]bool

	log  []event
	pos  int
	fork func(prefix []event) // schedules an alternative

	spec       int
	specBudget int
	journal    []jentry

	nondets   []ndRec
	rands     []randRec
	forced    *Poly // what every draw yields, where its range allows
	drawLabel string
	drawLimit int
	again     []*Poly // draws to repeat (nil entries: draw afresh)
	recHash   bool    // record hash outputs
	script    bool    // let the replay choose hash outputs
	hashLog   []*Tok  // the hashes so far, in order; nil for one with a constant input
	hashes    []*Poly
	ranges    map[string]*rangeRes
	watch     *watching
	fresh     int
	notes     map[string]bool
	cands     []*cexCand
	inconcl   []string

	steps     int64
	maxSteps  int64
	loopBound int
	nchoices  int // alternatives taken so far on this path
	depth     int
	reached   []string
	reachedM  []value
	funcs     map[string]bool
	genericN  int
	hosts     map[string]value
	hostEq    []value
	done      bool
	asserts   int
	trivialA  int
	curFn     []fnRef
	jcount    int
	coords    map[string][2]*Poly
	memo      map[string]interface{}
	deadline  int64
	tagged    []string
	inTry     int
	bounded   map[string]bool
	trace     bool
}

type jentry struct {
	p   *value
	old value
}

func (c *Ctx) unsupported(msg string) {
	if c.spec > 0 {
		panic(specAbort{"unsupported: " + msg})
	}
	st := ""
	if n := len(c.curFn); n > 0 {
		lo := n - 4
		if lo < 0 {
			lo = 0
		}
		st = fmt.Sprintf(" (in %v)", c.curFn[lo:])
	}
	panic(unsupportedErr{msg + st})
}
func (c *Ctx) note(s string) { c.notes[s] = true }
func (c *Ctx) noteGeneric()  { c.genericN++ }

func (c *Ctx) panicStr(msg string) {
	if debugPaths && c.spec == 0 {
		fmt.Fprintln(os.Stderr, "  panic:", msg, c.curFn)
	}
	panic(targetPanic{v: iface{t: c.P.rtErrType, v: &hostErr{msg: "runtime error: " + msg}}, msg: "runtime error: " + msg})
}

// set writes a cell, journaled during speculation.
func (c *Ctx) set(p *value, v value) {
	if c.spec > 0 {
		c.journal = append(c.journal, jentry{p, *p})
	}
	if c.watch != nil {
		c.wrote(p)
	}
	*p = v
}

// store writes a possibly aggregate value keeping field addresses stable.
func (c *Ctx) store(p *value, v value) {
	if p == nil {
		c.panicStr("invalid memory address or nil pointer dereference")
	}
	switch nv := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(nv) {
			if len(old) > 0 && &old[0] == &nv[0] {
				return
			}
			for i := range nv {
				c.store(&old[i], nv[i])
			}
			return
		}
		c.set(p, copyVal(v))
		return
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(nv) {
			if len(old) > 0 && &old[0] == &nv[0] {
				return
			}
			for i := range nv {
				c.store(&old[i], nv[i])
			}
			return
		}
		c.set(p, copyVal(v))
		return
	}
	c.set(p, v)
}

func (c *Ctx) load(p *value) value {
	if p == nil {
		c.panicStr("invalid memory address or nil pointer dereference")
	}
	return copyVal(*p)
}

func newCell(v value) *value {
	p := new(value)
	*p = v
	return p
}

// ---------------------------------------------------------------- path conditions and decisions

func (c *Ctx) assume(q *Pred) {
	if q.op == pTrue {
		return
	}
	if q.op == pAnd {
		for _, a := range q.args {
			c.assume(a)
		}
		return
	}
	if c.pcKeys[q.key] {
		return
	}
	d := map[string]bool{}
	c.predDeps(q, d)
	if (q.op == pEq0 || q.op == pZm) && len(q.p.t) == 1 {
		for m := range q.p.t {
			if len(m) == 8 {
				c.zeros = append(c.zeros, zeroFact{factors(m)[0].id, q.n, len(c.pc)})
			}
		}
	}
	c.pc = append(c.pc, q)
	c.pcDeps = append(c.pcDeps, d)
	c.pcKeys[q.key] = true
}

func (c *Ctx) popTo(n int) {
	for i := n; i < len(c.pc); i++ {
		delete(c.pcKeys, c.pc[i].key)
	}
	c.pc = c.pc[:n]
	c.pcDeps = c.pcDeps[:n]
	for len(c.zeros) > 0 && c.zeros[len(c.zeros)-1].at >= n {
		c.zeros = c.zeros[:len(c.zeros)-1]
	}
}

// zeroFact: atom id is 0 (modulo n unless nil) by path condition number at.
type zeroFact struct {
	id int32
	n  *big.Int
	at int
}

// dropZeros removes the terms of p that the path condition makes 0 modulo n.
func (c *Ctx) dropZeros(p *Poly, n *big.Int) *Poly {
	if len(c.zeros) == 0 {
		return p
	}
	var out *Poly
	for m := range p.t {
		for _, f := range factors(m) {
			hit := false
			if f.e > 0 {
				for _, z := range c.zeros {
					if z.id == f.id && (z.n == nil || z.n.Cmp(n) == 0) {
						hit = true
						break
					}
				}
			}
			if hit {
				if out == nil {
					out = &Poly{t: make(map[string]*big.Int, len(p.t))}
					for k, v := range p.t {
						out.t[k] = v
					}
				}
				delete(out.t, m)
				break
			}
		}
	}
	if out == nil {
		return p
	}
	return out
}

// known evaluates q by the path condition syntactically: 1 true, 0 false, -1 unknown.
func (c *Ctx) known(q *Pred) int {
	switch q.op {
	case pTrue:
		return 1
	case pFalse:
		return 0
	}
	if c.pcKeys[q.key] {
		return 1
	}
	n := mkNot(q)
	if c.pcKeys[n.key] {
		return 0
	}
	switch q.op {
	case pNot:
		k := c.known(q.args[0])
		if k >= 0 {
			return 1 - k
		}
	case pAnd:
		all := true
		for _, a := range q.args {
			k := c.known(a)
			if k == 0 {
				return 0
			}
			if k < 0 {
				all = false
			}
		}
		if all {
			return 1
		}
	case pOr:
		all := true
		for _, a := range q.args {
			k := c.known(a)
			if k == 1 {
				return 1
			}
			if k < 0 {
				all = false
			}
		}
		if all {
			return 0
		}
	}
	return -1
}

func (c *Ctx) nextEvent(kind byte) *event {
	if c.pos < len(c.log) {
		e := &c.log[c.pos]
		if e.kind != kind {
			panic(unsupportedErr{fmt.Sprintf("engine: divergent re-execution (%c vs %c at %d)", e.kind, kind, c.pos)})
		}
		c.pos++
		return e
	}
	return nil
}
func (c *Ctx) record(e event) {
	c.log = append(c.log, e)
	c.pos = len(c.log)
}

// feas returns which outcomes of q are possible: bit0 true, bit1 false.
func (c *Ctx) feas(q *Pred) int {
	switch c.known(q) {
	case 1:
		return 1
	case 0:
		return 2
	}
	if e := c.nextEvent('f'); e != nil {
		return e.n
	}
	r := 0
	rt, _ := c.check(false, q)
	if rt != resUnsat {
		r |= 1
	}
	if r == 0 {
		r = 2 // pc itself assumed satisfiable
	} else {
		rf, _ := c.check(false, mkNot(q))
		if rf != resUnsat {
			r |= 2
		}
	}
	c.record(event{kind: 'f', n: r})
	return r
}

// branch decides q, forking the path if both outcomes are possible.
func (c *Ctx) branch(q *Pred) bool {
	switch f := c.feas(q); f {
	case 1:
		return true
	case 2:
		return false
	}
	if c.spec > 0 {
		panic(specAbort{"fork"})
	}
	r := c.choose(2) == 0
	if r {
		c.assume(q)
	} else {
		c.assume(mkNot(q))
	}
	c.st.addDecision()
	return r
}

// choose picks one of n alternatives, scheduling the others.
func (c *Ctx) choose(n int) int {
	if n == 1 {
		return 0
	}
	if c.spec > 0 {
		panic(specAbort{"choice"})
	}
	c.nchoices++
	if e := c.nextEvent('c'); e != nil {
		return e.n
	}
	base := append([]event{}, c.log...)
	for i := n - 1; i >= 1; i-- {
		c.fork(append(append([]event{}, base...), event{kind: 'c', n: i}))
	}
	c.record(event{kind: 'c', n: 0})
	return 0
}

// must reports whether q holds on every completion of this path.
func (c *Ctx) must(q *Pred) bool { return c.feas(q) == 1 }

// concretize enumerates the feasible values of p (at most max), forking.
func (c *Ctx) concretize(p *Poly, max int) *big.Int {
	if p.isConst() {
		return p.constVal()
	}
	for i := 0; ; i++ {
		if i >= max {
			c.bounded[fmt.Sprintf("value enumeration cut after %d values", max)] = true
			panic(pathEnd{"enumeration bound"})
		}
		if c.spec > 0 {
			panic(specAbort{"concretize"})
		}
		var v *big.Int
		if e := c.nextEvent('v'); e != nil {
			v = e.v
		} else {
			v = c.modelValue(p)
			if v == nil {
				c.unsupported("cannot concretize " + c.showPoly(p, 2))
			}
			c.record(event{kind: 'v', v: v})
		}
		if c.branch(c.eq(p, pConst(v))) {
			return v
		}
	}
}

func (c *Ctx) modelValue(p *Poly) *big.Int {
	f := fmt.Sprintf("val%d", len(c.atoms))
	x := c.sym("$"+f+p.Key(), cNondet, nil, nil)
	a := c.single(x)
	n0 := len(c.atoms) - 1
	r, m := c.check(true, &Pred{op: pEq0, p: pSub(x, p), key: "E" + pSub(x, p).Key()})
	c.dropAtoms(n0)
	if r != resSat || m == nil {
		return nil
	}
	return m.ints[a.id]
}

// ---------------------------------------------------------------- program

type Program struct {
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	repoMod   string
	rtErrType types.Type
	errType   types.Type
	hostTypes map[string]types.Type
	finfo     sync.Map
	intr      map[string]intrinsic
	seed      int64
	dropped   map[string]string
	mu        sync.Mutex
	built     map[*ssa.Package]bool
	conTab    sync.Map
}

type intrinsic func(c *Ctx, args []value) value

type fnInfo struct {
	idx                            map[ssa.Value]int
	n                              int
	joins                          map[*ssa.If]*ssa.BasicBlock
	joinOK                         map[*ssa.If]bool
	intr                           intrinsic
	name                           string
	allowed                        bool
	header, uncounted, inUncounted map[*ssa.BasicBlock]bool
	reach                          map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
}

func (s *Stats) addDecision() { s.mu.Lock(); s.decisions++; s.mu.Unlock() }

// dropAtoms forgets atoms created after index n (used for encoding only), so
// that atom numbering does not depend on which queries were asked.
func (c *Ctx) dropAtoms(n int) {
	for i := n; i < len(c.atoms); i++ {
		delete(c.atomIdx, c.atoms[i].key)
	}
	c.atoms = c.atoms[:n]
}

// fnRef is an entry of the call stack.
type fnRef struct {
	n       string
	repo    bool
	fn      *ssa.Function
	choices int
}

func (f fnRef) String() string { return f.n }
