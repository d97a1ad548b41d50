package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type deferred struct {
	fn   value
	args []value
	call *ssa.CallCommon
}

type frame struct {
	c         *Ctx
	fn        *ssa.Function
	info      *fnInfo
	env       []value
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []deferred
	result    value
	panicking bool
	panicVal  targetPanic
	caller    *frame
	forks     map[*ssa.If]int
	loops     map[*ssa.BasicBlock]loopState
}

func (c *Ctx) fnInfo(fn *ssa.Function) *fnInfo {
	if v, ok := c.P.finfo.Load(fn); ok {
		return v.(*fnInfo)
	}
	fi := &fnInfo{idx: map[ssa.Value]int{}, joins: map[*ssa.If]*ssa.BasicBlock{}, joinOK: map[*ssa.If]bool{}}
	fi.name = fn.String()
	if fn.Origin() != nil {
		fi.name = fn.Origin().String()
	}
	fi.intr = c.P.intr[fi.name]
	fi.allowed = c.P.allowed(fn)
	if fi.intr == nil && fi.allowed {
		c.P.build(fn)
	}
	add := func(v ssa.Value) {
		fi.idx[v] = fi.n
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.computeJoins(fn)
	fi.computeLoops(fn)
	v, _ := c.P.finfo.LoadOrStore(fn, fi)
	return v.(*fnInfo)
}

// computeJoins finds for every If the first block both sides can reach; the
// merge is allowed when the branch block is not re-entered before it.
func (fi *fnInfo) computeJoins(fn *ssa.Function) {
	if len(fn.Blocks) == 0 {
		return
	}
	// reverse post-order
	rpo := map[*ssa.BasicBlock]int{}
	var order []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i := range order {
		rpo[order[len(order)-1-i]] = i
	}
	reach := func(from, avoid *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
		r := map[*ssa.BasicBlock]bool{}
		var w []*ssa.BasicBlock
		if from != avoid {
			w = append(w, from)
			r[from] = true
		}
		for len(w) > 0 {
			b := w[len(w)-1]
			w = w[:len(w)-1]
			for _, s := range b.Succs {
				if s != avoid && !r[s] {
					r[s] = true
					w = append(w, s)
				}
			}
		}
		return r
	}
	for _, b := range fn.Blocks {
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		t, f := b.Succs[0], b.Succs[1]
		rt, rf := reach(t, b), reach(f, b)
		var j *ssa.BasicBlock
		for x := range rt {
			if rf[x] && x != b && (j == nil || rpo[x] < rpo[j]) {
				// candidate: prefer earliest; skip blocks before b (loop headers)
				if rpo[x] > rpo[b] {
					j = x
				}
			}
		}
		ok = true
		if j != nil {
			if reach(t, j)[b] || reach(f, j)[b] {
				ok = false
			}
		} else if reach(t, nil)[b] || reach(f, nil)[b] {
			ok = false
		}
		fi.joins[iff] = j
		fi.joinOK[iff] = ok
	}
}

func (fr *frame) get(v ssa.Value) value {
	switch v := v.(type) {
	case *ssa.Const:
		return fr.c.constVal(v)
	case *ssa.Function:
		return v
	case *ssa.Builtin:
		return v
	case *ssa.Global:
		return fr.c.global(v)
	}
	i, ok := fr.info.idx[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v.Name(), fr.fn))
	}
	return fr.env[i]
}
func (fr *frame) put(v ssa.Value, x value) { fr.env[fr.info.idx[v]] = x }

func (c *Ctx) global(g *ssa.Global) *value {
	if p, ok := c.globals[g]; ok {
		return p
	}
	if h := c.hostGlobal(g); h != nil {
		c.globals[g] = h
		return h
	}
	if g.Pkg != nil && c.spec > 0 && !c.inited[g.Pkg] {
		panic(specAbort{"init"})
	}
	p := newCell(c.zero(g.Type().Underlying().(*types.Pointer).Elem()))
	c.globals[g] = p
	if g.Pkg != nil {
		c.ensureInit(g.Pkg)
		if c.watch != nil && g.Name() != "init$guard" {
			c.watch.walk(p, 0)
		}
	}
	return p
}

// ensureInit runs a package's initialiser lazily.
func (c *Ctx) ensureInit(p *ssa.Package) {
	if c.inited[p] {
		return
	}
	c.inited[p] = true
	if !c.P.initAllowed(p) {
		c.unsupported("package state of " + p.Pkg.Path())
	}
	f := p.Func("init")
	if f == nil {
		return
	}
	sp := c.spec
	if sp > 0 {
		delete(c.inited, p)
		panic(specAbort{"init"})
	}
	c.locked(1)
	c.call(f, nil, nil)
	c.locked(-1)
}

func (c *Ctx) constVal(k *ssa.Const) value {
	if k.Value == nil {
		return c.zero(k.Type())
	}
	if t, ok := k.Type().Underlying().(*types.Basic); ok {
		switch {
		case t.Info()&types.IsBoolean != 0:
			return constant.BoolVal(k.Value)
		case t.Info()&types.IsString != 0:
			if k.Value.Kind() == constant.String {
				return constant.StringVal(k.Value)
			}
			return string(rune(k.Int64()))
		case t.Info()&types.IsUnsigned != 0:
			return k.Uint64()
		case t.Info()&types.IsInteger != 0:
			return k.Int64()
		case t.Info()&types.IsFloat != 0:
			return k.Float64()
		case t.Kind() == types.UntypedNil:
			return nil
		}
	}
	c.unsupported("constant " + k.String())
	return nil
}

// ---------------------------------------------------------------- calls

func (c *Ctx) callValue(fv value, args []value) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			c.panicStr("invalid memory address or nil pointer dereference")
		}
		return c.call(f, args, nil)
	case *closure:
		return c.call(f.fn, args, f.env)
	case *hostFn:
		return f.f(c, args)
	case nil:
		c.panicStr("invalid memory address or nil pointer dereference")
	}
	c.unsupported(fmt.Sprintf("call of %T", fv))
	return nil
}

func (c *Ctx) call(fn *ssa.Function, args []value, fv []value) value {
	fi := c.fnInfo(fn)
	if fi.intr != nil {
		return fi.intr(c, args)
	}
	if fn.Name() == "init" && fn.Synthetic != "" && fn.Pkg != nil {
		// package initialiser reached through an import: lazily only
		if !c.inited[fn.Pkg] {
			if !c.P.initAllowed(fn.Pkg) || !c.P.isTarget(fn.Pkg) {
				return nil
			}
			c.inited[fn.Pkg] = true
		} else if len(c.curFn) > 0 && c.curFn[len(c.curFn)-1].n == "init" && c.memo["ran:"+fi.name] != nil {
			return nil
		}
		if c.memo["ran:"+fi.name] != nil {
			return nil
		}
		c.memo["ran:"+fi.name] = true
	}
	if !fi.allowed || len(fn.Blocks) == 0 {
		c.unsupported("no model for " + fi.name)
	}
	if c.depth > 400 {
		c.unsupported("call depth")
	}
	c.depth++
	ref := fnRef{fn.Name(), fn.Pkg != nil && strings.HasPrefix(fn.Pkg.Pkg.Path(), repoMod), fn, c.nchoices}
	if ref.repo {
		// recursion is bounded like a loop: levels that branched on symbolic data
		n, last := 0, ref.choices
		for i := len(c.curFn) - 1; i >= 0; i-- {
			if f := c.curFn[i]; f.fn == fn {
				if f.choices < last {
					n++
				}
				last = f.choices
			}
		}
		if n > c.loopBound+4 {
			c.bounded[fmt.Sprintf("at most %d nested symbolic activations of %s", c.loopBound+4, fn.Name())] = true
			c.depth--
			panic(pathEnd{"recursion bound"})
		}
	}
	c.curFn = append(c.curFn, ref)
	c.funcs[fi.name] = true
	fr := &frame{c: c, fn: fn, info: fi, env: make([]value, fi.n)}
	for i := range fn.Params {
		fr.env[i] = args[i]
	}
	for i := range fv {
		fr.env[len(fn.Params)+i] = fv[i]
	}
	fr.block = fn.Blocks[0]
	dn := len(c.curFn)
	defer func() {
		c.depth--
		c.curFn = c.curFn[:dn-1]
	}()
	if fn.Recover == nil && !hasDefer(fn) {
		fr.run(nil)
		return fr.result
	}
	fr.runProtected()
	return fr.result
}

func hasDefer(fn *ssa.Function) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if _, ok := i.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) runProtected() {
	c := fr.c
	if c.spec > 0 {
		panic(specAbort{"defer"})
	}
	pan := func() (p *targetPanic) {
		defer func() {
			if r := recover(); r != nil {
				if tp, ok := r.(targetPanic); ok {
					p = &tp
					return
				}
				panic(r)
			}
		}()
		depth, cur := c.depth, len(c.curFn)
		defer func() { c.depth = depth; c.curFn = c.curFn[:cur] }()
		fr.run(nil)
		return nil
	}()
	if pan == nil {
		return
	}
	fr.panicking = true
	fr.panicVal = *pan
	fr.runDefers()
	if fr.panicking {
		panic(fr.panicVal)
	}
	// recovered: run the Recover block
	if fr.fn.Recover != nil {
		fr.block = fr.fn.Recover
		fr.run(nil)
	} else {
		fr.result = c.zeroResult(fr.fn)
	}
}

func (c *Ctx) zeroResult(fn *ssa.Function) value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return c.zero(r.At(0).Type())
	}
	return c.zero(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					if tp, ok := r.(targetPanic); ok {
						fr.panicking = true
						fr.panicVal = tp
						return
					}
					panic(r)
				}
			}()
			fr.invokeDeferred(d)
		}()
	}
}

var curPanicFrame = map[*Ctx]*frame{}

func (fr *frame) invokeDeferred(d deferred) {
	c := fr.c
	old := c.memo["panicframe"]
	c.memo["panicframe"] = fr
	defer func() { c.memo["panicframe"] = old }()
	if b, ok := d.fn.(*ssa.Builtin); ok {
		fr.builtin(b, d.args, d.call)
		return
	}
	c.callValue(d.fn, d.args)
}

// run executes from fr.block until return or until entering stop.
// It reports whether it stopped at stop (true) or returned (false).
func (fr *frame) run(stop *ssa.BasicBlock) bool {
	c := fr.c
	for {
		if stop != nil && fr.block == stop {
			return true
		}
		b := fr.block
		var next *ssa.BasicBlock
		// phis
		np := 0
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				np++
			} else {
				break
			}
		}
		if np > 0 && fr.prev != nil {
			pi := -1
			for i, p := range b.Preds {
				if p == fr.prev {
					pi = i
					break
				}
			}
			tmp := make([]value, np)
			for i := 0; i < np; i++ {
				tmp[i] = fr.get(b.Instrs[i].(*ssa.Phi).Edges[pi])
			}
			for i := 0; i < np; i++ {
				fr.put(b.Instrs[i].(*ssa.Phi), tmp[i])
			}
		}
		c.steps += int64(len(b.Instrs))
		if c.steps > c.maxSteps {
			c.bounded["step budget"] = true
			panic(pathEnd{"step budget"})
		}
		if c.deadline != 0 && c.steps&0x3ff < int64(len(b.Instrs)) && (memStop.Load() || time.Now().UnixNano() > c.deadline) {
			panic(pathEnd{"time budget"})
		}
		if c.spec > 0 {
			c.specBudget -= len(b.Instrs)
			if c.specBudget < 0 {
				panic(specAbort{"budget"})
			}
		}
		for _, in := range b.Instrs[np:] {
			switch in := in.(type) {
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.If:
				cv := fr.get(in.Cond)
				switch cv := cv.(type) {
				case bool:
					if cv {
						next = b.Succs[0]
					} else {
						next = b.Succs[1]
					}
				case *Pred:
					n, merged, returned := fr.symIf(in, cv)
					if returned {
						return false
					}
					if merged {
						// registers of n's phis already set; skip phi evaluation
						if fr.info.header[n] {
							fr.enterBlock(b, n)
						}
						fr.block = n
						fr.prev = nil
						goto cont
					}
					next = n
				default:
					panic(fmt.Sprintf("if on %T", cv))
				}
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = fr.get(in.Results[0])
				default:
					t := make(tuple, len(in.Results))
					for i, r := range in.Results {
						t[i] = fr.get(r)
					}
					fr.result = t
				}
				return false
			case *ssa.Panic:
				v := fr.get(in.X)
				panic(targetPanic{v: v, msg: c.panicMsg(v)})
			default:
				fr.instr(in)
			}
		}
		fr.prev = b
		fr.block = next
		if fr.info.header[next] {
			fr.enterBlock(b, next)
		}
	cont:
	}
}

func (c *Ctx) panicMsg(v value) string {
	if i, ok := v.(iface); ok {
		switch x := i.v.(type) {
		case string:
			return x
		case *hostErr:
			return x.msg
		}
		return fmt.Sprintf("%T", i.v)
	}
	return fmt.Sprint(v)
}

// symIf handles a branch on a symbolic condition.
func (fr *frame) symIf(in *ssa.If, q *Pred) (next *ssa.BasicBlock, merged, returned bool) {
	c := fr.c
	b := in.Block()
	switch c.feas(q) {
	case 1:
		return b.Succs[0], false, false
	case 2:
		return b.Succs[1], false, false
	}
	if fr.info.joinOK[in] && len(fr.defers) == 0 && !c.H.noMerge {
		if n, ok, ret := fr.tryMerge(in, q); ok {
			atomic.AddInt64(&c.st.merges, 1)
			return n, !ret, ret
		}
	}
	if c.spec > 0 {
		panic(specAbort{"fork"})
	}
	if fr.forks == nil {
		fr.forks = map[*ssa.If]int{}
	}
	fr.forks[in]++
	if debugSpec {
		fmt.Fprintln(os.Stderr, "  fork:", fr.fn.Name(), c.P.pos(in), c.showPred(q, 3))
	}
	lim := c.loopBound
	if !fr.info.inUncounted[b] {
		lim = max(lim, 64)
	}
	if fr.forks[in] > lim {
		c.bounded[fmt.Sprintf("at most %d symbolic iterations of the loop at %s", lim, c.P.pos(in))] = true
		panic(pathEnd{"loop bound"})
	}
	if c.branchKnownBoth(q) {
		return b.Succs[0], false, false
	}
	return b.Succs[1], false, false
}

// branchKnownBoth forks on q, both outcomes already known feasible.
func (c *Ctx) branchKnownBoth(q *Pred) bool {
	r := c.choose(2) == 0
	if r {
		c.assume(q)
	} else {
		c.assume(mkNot(q))
	}
	c.st.addDecision()
	return r
}

type sideOut struct {
	ok     bool
	ret    bool
	result value
	phis   []value
	writes map[*value]value
	order  []*value
}

func (fr *frame) runSide(q *Pred, start, join *ssa.BasicBlock) (out sideOut) {
	c := fr.c
	saveEnv := append([]value{}, fr.env...)
	saveB, saveP := fr.block, fr.prev
	pcN := len(c.pc)
	jn := len(c.journal)
	depth, cur := c.depth, len(c.curFn)
	c.assume(q)
	fr.prev = fr.block
	fr.block = start
	defer func() {
		r := recover()
		// collect writes and undo
		if out.ok {
			out.writes = map[*value]value{}
			for _, e := range c.journal[jn:] {
				if _, ok := out.writes[e.p]; !ok {
					out.order = append(out.order, e.p)
				}
				out.writes[e.p] = *e.p
			}
		}
		for i := len(c.journal) - 1; i >= jn; i-- {
			*c.journal[i].p = c.journal[i].old
		}
		c.journal = c.journal[:jn]
		c.popTo(pcN)
		fr.env = saveEnv
		fr.block, fr.prev = saveB, saveP
		c.depth = depth
		c.curFn = c.curFn[:cur]
		if r != nil {
			out.ok = false
			switch x := r.(type) {
			case specAbort:
				if debugSpec {
					fmt.Fprintln(os.Stderr, "  spec abort:", x.why, fr.fn.Name(), c.P.pos(start.Instrs[0]))
				}
				return
			case targetPanic:
				return
			}
			panic(r)
		}
	}()
	stopped := fr.run(join)
	if !stopped {
		out.ret = true
		out.result = fr.result
		out.ok = true
		return
	}
	pi := -1
	for i, p := range join.Preds {
		if p == fr.prev {
			pi = i
		}
	}
	if pi < 0 {
		// came from a merged block directly: not representable
		panic(specAbort{"join pred"})
	}
	for _, x := range join.Instrs {
		ph, ok := x.(*ssa.Phi)
		if !ok {
			break
		}
		out.phis = append(out.phis, fr.get(ph.Edges[pi]))
	}
	out.ok = true
	return
}

func (fr *frame) tryMerge(in *ssa.If, q *Pred) (*ssa.BasicBlock, bool, bool) {
	c := fr.c
	j := fr.info.joins[in]
	b := in.Block()
	outer := c.spec == 0
	if outer {
		c.specBudget = 20000
	}
	c.spec++
	var ot, of sideOut
	func() {
		defer func() { c.spec-- }()
		ot = fr.runSide(q, b.Succs[0], j)
		if !ot.ok {
			return
		}
		of = fr.runSide(mkNot(q), b.Succs[1], j)
	}()
	if c.spec > 0 && c.specBudget < 0 {
		panic(specAbort{"budget"})
	}
	if !ot.ok || !of.ok || ot.ret != of.ret {
		return nil, false, false
	}
	// merge memory
	type w struct {
		p *value
		v value
	}
	var ws []w
	seen := map[*value]bool{}
	for _, lst := range [][]*value{ot.order, of.order} {
		for _, p := range lst {
			if seen[p] {
				continue
			}
			seen[p] = true
			vt, okT := ot.writes[p]
			vf, okF := of.writes[p]
			if !okT {
				vt = *p
			}
			if !okF {
				vf = *p
			}
			m, ok := c.mergeVal(q, vt, vf)
			if !ok {
				return nil, false, false
			}
			ws = append(ws, w{p, m})
		}
	}
	if ot.ret {
		m, ok := c.mergeVal(q, ot.result, of.result)
		if !ok {
			return nil, false, false
		}
		for _, x := range ws {
			c.set(x.p, x.v)
		}
		fr.result = m
		return nil, true, true
	}
	var ph []value
	for i := range ot.phis {
		m, ok := c.mergeVal(q, ot.phis[i], of.phis[i])
		if !ok {
			return nil, false, false
		}
		ph = append(ph, m)
	}
	for _, x := range ws {
		c.set(x.p, x.v)
	}
	for i, m := range ph {
		fr.put(j.Instrs[i].(*ssa.Phi), m)
	}
	return j, true, false
}

func (c *Ctx) predOf(v value) (*Pred, bool) {
	switch v := v.(type) {
	case bool:
		return boolPred(v), true
	case *Pred:
		return v, true
	}
	return nil, false
}

func (c *Ctx) boolVal(p *Pred) value {
	switch p.op {
	case pTrue:
		return true
	case pFalse:
		return false
	}
	return p
}

// mergeVal builds if q then x else y.
func (c *Ctx) mergeVal(q *Pred, x, y value) (value, bool) {
	if sameVal(x, y) {
		return x, true
	}
	switch a := x.(type) {
	case bool, *Pred:
		p1, _ := c.predOf(x)
		p2, ok := c.predOf(y)
		if !ok {
			return nil, false
		}
		return c.boolVal(mkOr(mkAnd(q, p1), mkAnd(mkNot(q), p2))), true
	case int64:
		switch y.(type) {
		case int64, *Poly:
			return c.intVal(c.ite(q, c.toPoly(x), c.toPoly(y)), true), true
		}
		return nil, false
	case uint64:
		switch y.(type) {
		case uint64, *Poly:
			return c.intVal(c.ite(q, c.toPoly(x), c.toPoly(y)), false), true
		}
		return nil, false
	case *Poly:
		switch b := y.(type) {
		case *Poly:
			r := c.ite(q, a, b)
			return r, true
		case int64, uint64:
			return c.ite(q, a, c.toPoly(y)), true
		}
		return nil, false
	case structure:
		b, ok := y.(structure)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		r := make(structure, len(a))
		for i := range a {
			v, ok := c.mergeVal(q, a[i], b[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case tuple:
		b, ok := y.(tuple)
		if !ok || len(a) != len(b) {
			return nil, false
		}
		r := make(tuple, len(a))
		for i := range a {
			v, ok := c.mergeVal(q, a[i], b[i])
			if !ok {
				return nil, false
			}
			r[i] = v
		}
		return r, true
	case iface:
		b, ok := y.(iface)
		if !ok || a.t == nil || b.t == nil || !types.Identical(a.t, b.t) {
			return nil, false
		}
		v, ok := c.mergeVal(q, a.v, b.v)
		if !ok {
			return nil, false
		}
		return iface{a.t, v}, true
	case hostTime:
		return a, true
	case *hostErr:
		// error values are opaque: either message
		if _, ok := y.(*hostErr); ok {
			return a, true
		}
	case *value:
		// two freshly allocated big integers: merge into a new cell
		b, ok := y.(*value)
		if !ok || a == nil || b == nil {
			return nil, false
		}
		pa, ok1 := (*a).(*Poly)
		pb, ok2 := (*b).(*Poly)
		_ = pa
		_ = pb
		_ = ok1
		_ = ok2
		return nil, false
	}
	return nil, false
}

func sameVal(x, y value) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case bool, int64, uint64, string, float64, *value, *Pred, *smap, *ssa.Function, *closure, *hostErr, *Rope, *BV, *hostElem, *hostGroup, *hostScalar, *hostHash, *hostFn:
		if p, ok := x.(*Pred); ok {
			if q, ok := y.(*Pred); ok {
				return p.key == q.key
			}
		}
		return x == y
	case *Poly:
		b, ok := y.(*Poly)
		return ok && a.eq(b)
	case iface:
		b, ok := y.(iface)
		if !ok {
			return false
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		return types.Identical(a.t, b.t) && sameVal(a.v, b.v)
	case []value:
		b, ok := y.([]value)
		if !ok || len(a) != len(b) || cap(a) != cap(b) {
			return false
		}
		if len(a) == 0 {
			return (a == nil) == (b == nil)
		}
		return &a[0] == &b[0]
	case structure:
		b, ok := y.(structure)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case tuple:
		b, ok := y.(tuple)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case array:
		b, ok := y.(array)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case hostTime:
		_, ok := y.(hostTime)
		return ok
	}
	return false
}

// ---------------------------------------------------------------- instructions

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func (fr *frame) instr(in ssa.Instruction) {
	c := fr.c
	switch in := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		fr.put(in, newCell(c.zero(deref(in.Type()))))
	case *ssa.UnOp:
		fr.put(in, fr.unop(in))
	case *ssa.BinOp:
		fr.put(in, c.binop(in.Op, in.X.Type(), fr.get(in.X), fr.get(in.Y)))
	case *ssa.Call:
		fr.put(in, fr.callInstr(&in.Call))
	case *ssa.ChangeInterface:
		fr.put(in, fr.get(in.X))
	case *ssa.ChangeType:
		fr.put(in, fr.get(in.X))
	case *ssa.Convert:
		fr.put(in, c.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.MultiConvert:
		fr.put(in, c.convert(in.Type(), in.X.Type(), fr.get(in.X)))
	case *ssa.SliceToArrayPointer:
		x := fr.get(in.X).([]value)
		n := deref(in.Type()).Underlying().(*types.Array).Len()
		if int64(len(x)) < n {
			c.panicStr("cannot convert slice to array pointer")
		}
		// copy semantics lost; supported for reads
		fr.put(in, newCell(array(x[:n:n])))
	case *ssa.MakeInterface:
		fr.put(in, iface{in.X.Type(), fr.get(in.X)})
	case *ssa.Extract:
		fr.put(in, fr.get(in.Tuple).(tuple)[in.Index])
	case *ssa.Store:
		c.store(c.ptr(fr.get(in.Addr)), fr.get(in.Val))
	case *ssa.Field:
		x := fr.get(in.X)
		s, ok := x.(structure)
		if !ok {
			c.unsupported(fmt.Sprintf("field of %T", x))
		}
		fr.put(in, copyVal(s[in.Field]))
	case *ssa.FieldAddr:
		p := c.ptr(fr.get(in.X))
		if p == nil {
			c.panicStr("invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(structure)
		if !ok {
			c.unsupported(fmt.Sprintf("field of %T (%s)", *p, in.X.Type()))
		}
		fr.put(in, &s[in.Field])
	case *ssa.Index:
		fr.put(in, c.index(fr.get(in.X), fr.get(in.Index)))
	case *ssa.IndexAddr:
		fr.put(in, c.indexAddr(fr.get(in.X), fr.get(in.Index)))
	case *ssa.Lookup:
		fr.put(in, c.lookup(in, fr.get(in.X), fr.get(in.Index)))
	case *ssa.MakeSlice:
		n := c.concInt(fr.get(in.Len), "make length")
		k := c.concInt(fr.get(in.Cap), "make capacity")
		if n < 0 {
			c.panicStr("makeslice: len out of range")
		}
		if n > 1<<20 {
			c.panicStr("makeslice: len out of range")
		}
		if k < n {
			c.panicStr("makeslice: cap out of range")
		}
		s := make([]value, n, k)
		et := in.Type().Underlying().(*types.Slice).Elem()
		for i := range s[:k] {
			s[:k][i] = c.zero(et)
		}
		fr.put(in, s)
	case *ssa.MakeMap:
		fr.put(in, &smap{m: map[string]mapEnt{}})
	case *ssa.MapUpdate:
		if c.spec > 0 {
			panic(specAbort{"map"})
		}
		m := fr.get(in.Map).(*smap)
		if m == nil {
			panic(targetPanic{msg: "assignment to entry in nil map", v: iface{c.P.rtErrType, &hostErr{msg: "assignment to entry in nil map"}}})
		}
		m.put(c, fr.get(in.Key), fr.get(in.Value))
	case *ssa.MakeClosure:
		cl := &closure{fn: in.Fn.(*ssa.Function)}
		for _, b := range in.Bindings {
			cl.env = append(cl.env, fr.get(b))
		}
		fr.put(in, cl)
	case *ssa.MakeChan:
		fr.put(in, &hostChan{})
	case *ssa.Send:
		if c.spec > 0 {
			panic(specAbort{"chan"})
		}
		ch := fr.get(in.Chan).(*hostChan)
		ch.q = append(ch.q, fr.get(in.X))
	case *ssa.Phi:
		panic("phi")
	case *ssa.Range:
		switch x := fr.get(in.X).(type) {
		case string:
			fr.put(in, &strIter{s: x})
		case *smap:
			fr.put(in, &mapIter{m: x})
		case *Rope:
			c.unsupported("range over symbolic string")
		default:
			c.unsupported("range")
		}
	case *ssa.Next:
		switch it := fr.get(in.Iter).(type) {
		case *strIter:
			if it.i >= len(it.s) {
				fr.put(in, tuple{false, int64(0), int64(0)})
			} else {
				for k, r := range it.s[it.i:] {
					_ = k
					n := len(string(r))
					if r == 0xfffd {
						n = 1
						if strings.HasPrefix(it.s[it.i:], "\xef\xbf\xbd") {
							n = 3
						}
					}
					fr.put(in, tuple{true, int64(it.i), int64(r)})
					it.i += n
					break
				}
			}
		case *mapIter:
			if c.spec > 0 {
				panic(specAbort{"map"})
			}
			for it.m != nil && it.i < len(it.m.keys) {
				e, ok := it.m.m[it.m.keys[it.i]]
				it.i++
				if ok {
					fr.put(in, tuple{true, e.k, e.v})
					return
				}
			}
			t := in.Type().(*types.Tuple)
			fr.put(in, tuple{false, c.zeroOrNil(t.At(1).Type()), c.zeroOrNil(t.At(2).Type())})
		}
	case *ssa.Slice:
		fr.put(in, fr.slice(in))
	case *ssa.TypeAssert:
		fr.put(in, c.typeAssert(in, fr.get(in.X)))
	case *ssa.Defer:
		fn, args := fr.prepare(&in.Call)
		fr.defers = append(fr.defers, deferred{fn, args, &in.Call})
	case *ssa.RunDefers:
		fr.panicking = false
		fr.runDefers()
		if fr.panicking {
			panic(fr.panicVal)
		}
	case *ssa.Go:
		if c.spec > 0 {
			panic(specAbort{"go"})
		}
		c.note("goroutines run to completion at their start")
		fn, args := fr.prepare(&in.Call)
		c.callValue(fn, args)
	case *ssa.Select:
		c.unsupported("select")
	default:
		c.unsupported(fmt.Sprintf("instruction %T", in))
	}
}

func (c *Ctx) zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return c.zero(t)
}

func (c *Ctx) ptr(v value) *value {
	switch p := v.(type) {
	case *value:
		return p
	case nil:
		return nil
	}
	c.unsupported(fmt.Sprintf("pointer %T", v))
	return nil
}

// concInt forces a concrete machine integer.
func (c *Ctx) concInt(v value, what string) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case uint64:
		return int64(v)
	case *Poly:
		b := c.concretize(v, c.H.enumMax())
		if !b.IsInt64() {
			c.unsupported("huge " + what)
		}
		return b.Int64()
	case *BV:
		return c.concBV(v)
	}
	c.unsupported(fmt.Sprintf("%s: %T", what, v))
	return 0
}

// boundsCheck makes sure lo <= i < hi; the failing side panics like the program.
func (c *Ctx) boundsCheck(i value, n int, what string) int {
	switch x := i.(type) {
	case int64:
		if x < 0 || x >= int64(n) {
			c.panicStr(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	case uint64:
		if x >= uint64(n) {
			c.panicStr(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	}
	p := c.toPoly(i)
	ok := mkAnd(c.le(pInt(0), p), c.lt(p, pInt(int64(n))))
	if !c.branch(ok) {
		c.panicStr("index out of range")
	}
	return int(c.concretize(p, c.H.enumMax()).Int64())
}

func (c *Ctx) index(x, i value) value {
	switch s := x.(type) {
	case array:
		return copyVal(s[c.boundsCheck(i, len(s), "array")])
	case string:
		return uint64(s[c.boundsCheck(i, len(s), "string")])
	case *Rope:
		cs := c.materialize(s)
		return cs[c.boundsCheck(i, len(cs), "string")]
	}
	c.unsupported(fmt.Sprintf("index of %T", x))
	return nil
}

func (c *Ctx) indexAddr(x, i value) value {
	switch s := x.(type) {
	case []value:
		return &s[c.boundsCheck(i, len(s), "slice")]
	case *value:
		if s == nil {
			c.panicStr("invalid memory address or nil pointer dereference")
		}
		a, ok := (*s).(array)
		if !ok {
			c.unsupported(fmt.Sprintf("index of pointer to %T", *s))
		}
		return &a[c.boundsCheck(i, len(a), "array")]
	case *Rope:
		// a single JSON token: first byte may be inspected
		if k, ok := i.(int64); ok && k == 0 && len(s.segs) > 0 && s.segs[0].tok != nil && s.segs[0].tok.kind == "json" {
			return newCell(c.jsonFirst(s.segs[0].tok))
		}
		cs := c.materialize(s)
		return &cs[c.boundsCheck(i, len(cs), "slice")]
	}
	c.unsupported(fmt.Sprintf("index address of %T", x))
	return nil
}

func (c *Ctx) lookup(in *ssa.Lookup, x, i value) value {
	switch m := x.(type) {
	case *smap:
		var v value
		ok := false
		if m != nil {
			v, ok = m.get(c, i)
		}
		if !ok {
			t := in.X.Type().Underlying().(*types.Map)
			v = c.zero(t.Elem())
		}
		if in.CommaOk {
			return tuple{copyVal(v), ok}
		}
		return copyVal(v)
	}
	return c.index(x, i)
}

func (c *Ctx) mapKey(k value) string {
	switch k := k.(type) {
	case string:
		return "s" + k
	case int64, uint64, bool:
		return fmt.Sprintf("%T%v", k, k)
	case iface:
		if k.t == nil {
			return "nil"
		}
		return k.t.String() + "|" + c.mapKey(k.v)
	case array:
		s := "a"
		for _, x := range k {
			s += c.mapKey(x) + ","
		}
		return s
	case structure:
		s := "t"
		for _, x := range k {
			s += c.mapKey(x) + ","
		}
		return s
	case *value:
		return fmt.Sprintf("p%p", k)
	case *Rope:
		if s, ok := k.concrete(); ok {
			return "s" + s
		}
		return "r" + k.Key()
	case *Poly:
		return "q" + k.Key()
	case *BV:
		return "b" + k.e
	case *hostElem:
		return fmt.Sprintf("h%p", k)
	}
	c.unsupported(fmt.Sprintf("map key %T", k))
	return ""
}

// symKey tells whether a key holds symbolic data.
func symKey(k value) bool {
	switch k := k.(type) {
	case iface:
		return symKey(k.v)
	case array:
		for _, x := range k {
			if symKey(x) {
				return true
			}
		}
	case structure:
		for _, x := range k {
			if symKey(x) {
				return true
			}
		}
	case *Rope:
		_, ok := k.concrete()
		return !ok
	case *Poly, *BV, *Pred:
		return true
	}
	return false
}

// find is the entry key of k. Symbolic keys are compared with every present key.
func (m *smap) find(c *Ctx, k value) string {
	ks := c.mapKey(k)
	if _, ok := m.m[ks]; ok {
		return ks
	}
	sym := symKey(k)
	if !sym && !m.sym {
		return ks
	}
	for _, o := range m.keys {
		e, ok := m.m[o]
		if !ok || !sym && !symKey(e.k) {
			continue
		}
		if q := c.equal(k, e.k); q.op != pFalse && c.branch(q) {
			return o
		}
	}
	return ks
}
func (m *smap) put(c *Ctx, k, v value) {
	c.wroteMap(m)
	ks := m.find(c, k)
	if e, ok := m.m[ks]; ok {
		k = e.k
	} else {
		m.keys = append(m.keys, ks)
		m.sym = m.sym || symKey(k)
	}
	m.m[ks] = mapEnt{k, copyVal(v)}
}
func (m *smap) get(c *Ctx, k value) (value, bool) {
	if len(m.m) == 0 {
		return nil, false
	}
	e, ok := m.m[m.find(c, k)]
	return e.v, ok
}
func (m *smap) remove(c *Ctx, k value) {
	c.wroteMap(m)
	ks := m.find(c, k)
	if _, ok := m.m[ks]; ok {
		delete(m.m, ks)
		// iterators hold indices: leave a gap
		for i, o := range m.keys {
			if o == ks {
				m.keys[i] = ""
			}
		}
	}
}

type hostChan struct{ q []value }

func (fr *frame) unop(in *ssa.UnOp) value {
	c := fr.c
	x := fr.get(in.X)
	switch in.Op {
	case token.MUL:
		return c.load(c.ptr(x))
	case token.NOT:
		switch b := x.(type) {
		case bool:
			return !b
		case *Pred:
			return c.boolVal(mkNot(b))
		}
	case token.SUB:
		if f, ok := x.(float64); ok {
			return -f
		}
		return c.binop(token.SUB, in.X.Type(), c.intZero(in.X.Type()), x)
	case token.XOR:
		bits, signed := c.intInfo(in.X.Type())
		if signed {
			return c.binop(token.SUB, in.X.Type(), int64(-1), x)
		}
		m := ^uint64(0)
		if bits < 64 {
			m = 1<<uint(bits) - 1
		}
		return c.binop(token.SUB, in.X.Type(), m, x)
	case token.ARROW:
		if c.spec > 0 {
			panic(specAbort{"chan"})
		}
		ch := x.(*hostChan)
		if ch == nil || len(ch.q) == 0 {
			c.unsupported("receive would block")
		}
		v := ch.q[0]
		ch.q = ch.q[1:]
		if in.CommaOk {
			return tuple{v, true}
		}
		return v
	}
	c.unsupported("unop " + in.Op.String())
	return nil
}

func (c *Ctx) intZero(t types.Type) value {
	_, s := c.intInfo(t)
	if s {
		return int64(0)
	}
	return uint64(0)
}

func (c *Ctx) intInfo(t types.Type) (int, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		c.unsupported("integer type " + t.String())
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	}
	c.unsupported("integer type " + t.String())
	return 0, false
}

func wrapNative(bits int, signed bool, v uint64) value {
	if signed {
		switch bits {
		case 8:
			return int64(int8(v))
		case 16:
			return int64(int16(v))
		case 32:
			return int64(int32(v))
		}
		return int64(v)
	}
	switch bits {
	case 8:
		return uint64(uint8(v))
	case 16:
		return uint64(uint16(v))
	case 32:
		return uint64(uint32(v))
	}
	return v
}

func (c *Ctx) toPoly(v value) *Poly {
	switch v := v.(type) {
	case *Poly:
		return v
	case int64:
		return pInt(v)
	case uint64:
		return pConst(new(big.Int).SetUint64(v))
	case *BV:
		return pInt(c.concBV(v))
	case bool:
		if v {
			return pInt(1)
		}
		return pInt(0)
	}
	c.unsupported(fmt.Sprintf("integer from %T", v))
	return nil
}

// intVal turns a polynomial known to be in range into a machine integer value.
func (c *Ctx) intVal(p *Poly, signed bool) value {
	if p.isConst() {
		if signed {
			return p.constVal().Int64()
		}
		return p.constVal().Uint64()
	}
	return p
}

func (c *Ctx) wrap(p *Poly, bits int, signed bool) value {
	m := new(big.Int).Lsh(one, uint(bits))
	if signed {
		h := new(big.Int).Rsh(m, 1)
		nh := new(big.Int).Neg(h)
		if p.isConst() || c.within(p, nh, new(big.Int).Sub(h, one)) {
			if p.isConst() {
				v := new(big.Int).Add(p.constVal(), h)
				v.Mod(v, m)
				v.Sub(v, h)
				return v.Int64()
			}
			return p
		}
		q := pSub(c.mkMod(pAdd(p, pConst(h)), m), pConst(h))
		return c.intVal(q, true)
	}
	return c.intVal(c.mkMod(p, m), false)
}

func (c *Ctx) binop(op token.Token, t types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return c.boolVal(c.equal(x, y))
	case token.NEQ:
		return c.boolVal(mkNot(c.equal(x, y)))
	}
	// booleans
	if bx, ok := c.predOf(x); ok {
		by, _ := c.predOf(y)
		switch op {
		case token.AND, token.LAND:
			return c.boolVal(mkAnd(bx, by))
		case token.OR, token.LOR:
			return c.boolVal(mkOr(bx, by))
		}
	}
	// strings
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		sx, ok1 := x.(string)
		sy, ok2 := y.(string)
		if op == token.ADD {
			if ok1 && ok2 {
				return sx + sy
			}
			return ropeVal(ropeCat(strRope(x), strRope(y)))
		}
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return sx < sy
			case token.LEQ:
				return sx <= sy
			case token.GTR:
				return sx > sy
			case token.GEQ:
				return sx >= sy
			}
		}
		if rx, ry := strRope(x), strRope(y); rx != nil && ry != nil {
			switch op {
			case token.LSS:
				return c.boolVal(c.ropeLess(rx, ry))
			case token.LEQ:
				return c.boolVal(mkNot(c.ropeLess(ry, rx)))
			case token.GTR:
				return c.boolVal(c.ropeLess(ry, rx))
			case token.GEQ:
				return c.boolVal(mkNot(c.ropeLess(rx, ry)))
			}
		}
		c.unsupported("string comparison")
	}
	if fx, ok := x.(float64); ok {
		fy := y.(float64)
		switch op {
		case token.ADD:
			return fx + fy
		case token.SUB:
			return fx - fy
		case token.MUL:
			return fx * fy
		case token.QUO:
			return fx / fy
		case token.LSS:
			return fx < fy
		case token.LEQ:
			return fx <= fy
		case token.GTR:
			return fx > fy
		case token.GEQ:
			return fx >= fy
		}
	}
	if _, ok := x.(*hostTime); ok {
		return x
	}
	bits, signed := c.intInfo(t)
	_, bvx := x.(*BV)
	_, bvy := y.(*BV)
	if bvx || bvy {
		return c.bvBinop(op, bits, signed, x, y)
	}
	_, px := x.(*Poly)
	_, py := y.(*Poly)
	if !px && !py {
		return c.nativeBinop(op, bits, signed, x, y)
	}
	return c.symBinop(op, bits, signed, x, y)
}

func (c *Ctx) nativeBinop(op token.Token, bits int, signed bool, x, y value) value {
	if op == token.SHL || op == token.SHR {
		var s uint64
		switch k := y.(type) {
		case int64:
			if k < 0 {
				c.panicStr("negative shift amount")
			}
			s = uint64(k)
		case uint64:
			s = k
		}
		if signed {
			a := x.(int64)
			if op == token.SHL {
				if s >= 64 {
					return int64(0)
				}
				return wrapNative(bits, true, uint64(a)<<s)
			}
			if s >= 64 {
				s = 63
			}
			return a >> s
		}
		a := x.(uint64)
		if s >= 64 {
			return uint64(0)
		}
		if op == token.SHL {
			return wrapNative(bits, false, a<<s)
		}
		return a >> s
	}
	if signed {
		a, ok1 := x.(int64)
		b, ok2 := y.(int64)
		if !ok1 || !ok2 {
			c.unsupported(fmt.Sprintf("binop %T %T", x, y))
		}
		switch op {
		case token.ADD:
			return wrapNative(bits, true, uint64(a+b))
		case token.SUB:
			return wrapNative(bits, true, uint64(a-b))
		case token.MUL:
			return wrapNative(bits, true, uint64(a*b))
		case token.QUO:
			if b == 0 {
				c.panicStr("integer divide by zero")
			}
			if b == -1 {
				return wrapNative(bits, true, uint64(-a))
			}
			return wrapNative(bits, true, uint64(a/b))
		case token.REM:
			if b == 0 {
				c.panicStr("integer divide by zero")
			}
			if b == -1 {
				return int64(0)
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	} else {
		a, ok1 := x.(uint64)
		b, ok2 := y.(uint64)
		if !ok1 || !ok2 {
			c.unsupported(fmt.Sprintf("binop %T %T", x, y))
		}
		switch op {
		case token.ADD:
			return wrapNative(bits, false, a+b)
		case token.SUB:
			return wrapNative(bits, false, a-b)
		case token.MUL:
			return wrapNative(bits, false, a*b)
		case token.QUO:
			if b == 0 {
				c.panicStr("integer divide by zero")
			}
			return a / b
		case token.REM:
			if b == 0 {
				c.panicStr("integer divide by zero")
			}
			return a % b
		case token.AND:
			return a & b
		case token.OR:
			return a | b
		case token.XOR:
			return a ^ b
		case token.AND_NOT:
			return a &^ b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	}
	c.unsupported("binop " + op.String())
	return nil
}

func (c *Ctx) symBinop(op token.Token, bits int, signed bool, x, y value) value {
	a, b := c.toPoly(x), c.toPoly(y)
	switch op {
	case token.ADD:
		return c.wrap(pAdd(a, b), bits, signed)
	case token.SUB:
		return c.wrap(pSub(a, b), bits, signed)
	case token.MUL:
		return c.wrap(c.pMul(a, b), bits, signed)
	case token.LSS:
		return c.boolVal(c.lt(a, b))
	case token.LEQ:
		return c.boolVal(c.le(a, b))
	case token.GTR:
		return c.boolVal(c.lt(b, a))
	case token.GEQ:
		return c.boolVal(c.le(b, a))
	case token.SHL:
		s := c.concInt(y, "shift")
		if s >= int64(bits) {
			return c.intVal(pInt(0), signed)
		}
		return c.wrap(pScale(a, new(big.Int).Lsh(one, uint(s))), bits, signed)
	case token.SHR:
		s := c.concInt(y, "shift")
		if s > 63 {
			s = 63
		}
		return c.intVal(c.mkDiv(a, new(big.Int).Lsh(one, uint(s))), signed)
	case token.QUO, token.REM:
		if !b.isConst() {
			if c.branch(c.eq(b, pInt(0))) {
				c.panicStr("integer divide by zero")
			}
			b = pConst(c.concretize(b, c.H.enumMax()))
		}
		d := b.constVal()
		if d.Sign() == 0 {
			c.panicStr("integer divide by zero")
		}
		return c.intVal(c.truncDiv(a, d, op == token.REM), signed)
	case token.AND:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() && b.constVal().Sign() >= 0 {
			m := new(big.Int).Add(b.constVal(), one)
			if new(big.Int).And(m, b.constVal()).Sign() == 0 {
				return c.intVal(c.mkMod(a, m), signed)
			}
			// sum of selected bits
			acc := pInt(0)
			for i := 0; i < b.constVal().BitLen(); i++ {
				if b.constVal().Bit(i) == 1 {
					w := new(big.Int).Lsh(one, uint(i))
					acc = pAdd(acc, pScale(c.mkMod(c.mkDiv(a, w), two), w))
				}
			}
			return c.intVal(acc, signed)
		}
		if c.within(a, zero, one) && c.within(b, zero, one) {
			return c.intVal(c.pMul(a, b), signed)
		}
	case token.OR, token.XOR:
		if a.isConst() && a.constVal().Sign() == 0 {
			return c.intVal(b, signed)
		}
		if b.isConst() && b.constVal().Sign() == 0 {
			return c.intVal(a, signed)
		}
		if c.within(a, zero, one) && c.within(b, zero, one) {
			k := int64(1)
			if op == token.XOR {
				k = 2
			}
			return c.intVal(pSub(pAdd(a, b), pScale(c.pMul(a, b), big.NewInt(k))), signed)
		}
		// disjoint: a multiple of 2^k, b < 2^k
		for _, pr := range [][2]*Poly{{a, b}, {b, a}} {
			bb := c.bounds(pr[1])
			if bb.lo != nil && bb.lo.Sign() >= 0 && bb.hi != nil {
				m := new(big.Int).Lsh(one, uint(bb.hi.BitLen()))
				if c.modN(pr[0], m).isZero() {
					return c.intVal(pAdd(a, b), signed)
				}
			}
		}
	}
	// last resort: enumerate values
	a2 := c.concretize(a, 70)
	b2 := c.concretize(b, 70)
	return c.nativeBinop(op, bits, signed, c.intVal(pConst(a2), signed), c.intVal(pConst(b2), signed))
}

// truncDiv is Go's truncated division/remainder by a constant.
func (c *Ctx) truncDiv(a *Poly, d *big.Int, rem bool) *Poly {
	bd := c.bounds(a)
	neg := false
	if bd.lo == nil || bd.lo.Sign() < 0 {
		if bd.hi != nil && bd.hi.Sign() < 0 {
			neg = true
		} else {
			neg = c.branch(c.lt(a, pInt(0)))
		}
	}
	ad := new(big.Int).Abs(d)
	x := a
	if neg {
		x = pNeg(a)
	}
	if rem {
		r := c.mkMod(x, ad)
		if neg {
			r = pNeg(r)
		}
		return r
	}
	q := c.mkDiv(x, ad)
	if neg != (d.Sign() < 0) {
		q = pNeg(q)
	}
	return q
}

// equal is Go's == as a predicate.
func (c *Ctx) equal(x, y value) *Pred {
	switch a := x.(type) {
	case bool, *Pred:
		p, _ := c.predOf(x)
		q, ok := c.predOf(y)
		if !ok {
			c.unsupported("bool comparison")
		}
		return mkOr(mkAnd(p, q), mkAnd(mkNot(p), mkNot(q)))
	case int64, uint64, *Poly, *BV:
		_, b1 := x.(*BV)
		_, b2 := y.(*BV)
		if b1 || b2 {
			return c.bvEq(x, y)
		}
		return c.eq(c.toPoly(x), c.toPoly(y))
	case float64:
		return boolPred(a == y.(float64))
	case string, *Rope:
		rx, ry := strRope(x), strRope(y)
		if rx == nil || ry == nil {
			// byte rope compared with nil slice
			if y == nil || isNilSlice(y) {
				return tFalse
			}
			c.unsupported("string comparison")
		}
		return c.ropeEq(rx, ry)
	case *value:
		b, ok := y.(*value)
		if !ok {
			return boolPred(a == nil && y == nil)
		}
		return boolPred(a == b)
	case nil:
		switch b := y.(type) {
		case nil:
			return tTrue
		case *value:
			return boolPred(b == nil)
		case []value:
			return boolPred(b == nil)
		case iface:
			return boolPred(b.t == nil)
		case *Rope:
			return tFalse
		}
		return tFalse
	case []value:
		switch b := y.(type) {
		case []value:
			if a == nil || b == nil {
				return boolPred(a == nil && b == nil)
			}
			if len(a) > 0 && len(b) > 0 {
				return boolPred(&a[0] == &b[0])
			}
			return boolPred(len(a) == len(b))
		case nil:
			return boolPred(a == nil)
		}
		return boolPred(a == nil && y == nil)
	case *smap:
		b, _ := y.(*smap)
		return boolPred(a == b)
	case *ssa.Function:
		b, ok := y.(*ssa.Function)
		return boolPred(ok && a == b || !ok && a == nil && y == nil)
	case *closure:
		return tFalse
	case *hostFn:
		return tFalse
	case *hostChan:
		b, _ := y.(*hostChan)
		return boolPred(a == b)
	case iface:
		b, ok := y.(iface)
		if !ok {
			return boolPred(a.t == nil && y == nil)
		}
		if a.t == nil || b.t == nil {
			return boolPred(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return tFalse
		}
		return c.equal(a.v, b.v)
	case structure:
		b := y.(structure)
		var ps []*Pred
		for i := range a {
			ps = append(ps, c.equal(a[i], b[i]))
		}
		return mkAnd(ps...)
	case array:
		b := y.(array)
		var ps []*Pred
		for i := range a {
			ps = append(ps, c.equal(a[i], b[i]))
		}
		return mkAnd(ps...)
	case hostTime:
		return tTrue
	}
	if _, ok := x.(hostObj); ok {
		return boolPred(x == y)
	}
	c.unsupported(fmt.Sprintf("comparison of %T", x))
	return nil
}

func isNilSlice(v value) bool {
	s, ok := v.([]value)
	return ok && s == nil
}

func (c *Ctx) convert(dst, src types.Type, x value) value {
	ud, us := dst.Underlying(), src.Underlying()
	switch d := ud.(type) {
	case *types.Basic:
		if d.Info()&types.IsInteger != 0 {
			bits, signed := c.intInfo(dst)
			switch v := x.(type) {
			case int64:
				return wrapNative(bits, signed, uint64(v))
			case uint64:
				return wrapNative(bits, signed, v)
			case *Poly:
				return c.wrap(v, bits, signed)
			case *BV:
				return c.bvConvert(v, bits, signed, src)
			case float64:
				if signed {
					return wrapNative(bits, true, uint64(int64(v)))
				}
				return wrapNative(bits, false, uint64(v))
			}
		}
		if d.Info()&types.IsFloat != 0 {
			switch v := x.(type) {
			case int64:
				return float64(v)
			case uint64:
				return float64(v)
			case float64:
				if d.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Poly, *BV:
				return c.convert(dst, src, c.concVal(v, src))
			}
		}
		if d.Info()&types.IsString != 0 {
			switch v := x.(type) {
			case string:
				return v
			case *Rope:
				return ropeVal(v)
			case []value:
				if sl, ok := us.(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Int32 {
						var rs []rune
						for _, e := range v {
							rs = append(rs, rune(c.concInt(e, "rune")))
						}
						return string(rs)
					}
				}
				return ropeVal(c.cellsRope(v))
			case int64:
				return string(rune(v))
			case uint64:
				return string(rune(v))
			}
		}
		if d.Kind() == types.UnsafePointer {
			c.unsupported("unsafe")
		}
	case *types.Slice:
		// string to []byte or []rune
		if b, ok := us.(*types.Basic); ok && b.Info()&types.IsString != 0 {
			eb := d.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Int32 {
				s, ok := x.(string)
				if !ok {
					c.unsupported("runes of symbolic string")
				}
				r := []value{}
				for _, ch := range s {
					r = append(r, int64(ch))
				}
				return r
			}
			switch s := x.(type) {
			case string:
				r := make([]value, len(s))
				for i := 0; i < len(s); i++ {
					r[i] = uint64(s[i])
				}
				return r
			case *Rope:
				return c.bytesVal(s)
			}
		}
		return x
	case *types.Pointer:
		if _, ok := us.(*types.Pointer); ok {
			return x
		}
		c.unsupported("unsafe pointer conversion")
	case *types.Array:
		if s, ok := x.([]value); ok {
			n := int(d.Len())
			if len(s) < n {
				c.panicStr("cannot convert slice to array")
			}
			r := make(array, n)
			for i := range r {
				r[i] = copyVal(s[i])
			}
			return r
		}
	}
	c.unsupported(fmt.Sprintf("conversion %s -> %s of %T", src, dst, x))
	return nil
}

func (c *Ctx) concVal(v value, t types.Type) value {
	n := c.concInt(v, "value")
	_, s := c.intInfo(t)
	if s {
		return n
	}
	return uint64(n)
}

// materialize turns a rope into byte cells, fixing variable lengths.
func (c *Ctx) materialize(r *Rope) []value {
	if _, ok := r.fixedLen(); ok {
		return c.cells(r)
	}
	return c.cells(c.fixLens(r))
}

// fixLens replaces variable-length integer tokens by fixed-length ones,
// splitting on their length.
func (c *Ctx) fixLens(r *Rope) *Rope {
	out := &Rope{}
	for _, s := range r.segs {
		if s.tok == nil || s.tok.n >= 0 {
			out.push(s)
			continue
		}
		if s.tok.kind != "vb" {
			c.unsupported("bytes of symbolic " + s.tok.kind)
		}
		k := c.chooseBlen(s.tok.p)
		if k > 0 {
			out.push(seg{tok: c.tokBE(s.tok.p, k), a: 0, b: k})
		}
	}
	return out
}

// chooseBlen splits on the minimal byte length of p: the maximum, one less,
// and (bounded) smaller ones.
func (c *Ctx) chooseBlen(p *Poly) int {
	bl := c.blen(p)
	if bl.isConst() {
		return int(bl.constVal().Int64())
	}
	bd := c.bounds(bl)
	hi := 0
	if bd.hi != nil {
		hi = int(bd.hi.Int64())
	} else {
		c.unsupported("unbounded byte length")
	}
	n := 0
	for k := hi; k >= 0; k-- {
		if c.branch(c.eq(bl, pInt(int64(k)))) {
			return k
		}
		n++
		if n >= 3 {
			c.bounded["byte lengths other than the three longest are cut when bytes are inspected one by one"] = true
			panic(pathEnd{"byte length bound"})
		}
	}
	return 0
}

func (c *Ctx) blen(p *Poly) *Poly {
	if p.isConst() {
		return pInt(int64((p.constVal().BitLen() + 7) / 8))
	}
	b := c.bounds(p)
	var lo, hi *big.Int
	lo = zero
	if b.lo != nil && b.lo.Sign() >= 0 {
		lo = big.NewInt(int64((b.lo.BitLen() + 7) / 8))
	}
	if b.lo != nil && b.hi != nil {
		h := b.hi
		if b.lo.CmpAbs(h) > 0 {
			h = b.lo
		}
		hi = big.NewInt(int64((h.BitLen() + 7) / 8))
	}
	if hi != nil && lo.Cmp(hi) == 0 {
		return pConst(lo)
	}
	if hi == nil {
		hi = big.NewInt(600)
		c.note("byte lengths above 600 not considered")
	}
	a := c.mkAtom("l:"+p.Key(), func() *Atom {
		return &Atom{kind: aBlen, p: p, lo: lo, hi: hi}
	})
	return c.atomPoly(a)
}

func (fr *frame) slice(in *ssa.Slice) value {
	c := fr.c
	x := fr.get(in.X)
	var lo, hi, max value
	if in.Low != nil {
		lo = fr.get(in.Low)
	}
	if in.High != nil {
		hi = fr.get(in.High)
	}
	if in.Max != nil {
		max = fr.get(in.Max)
	}
	switch s := x.(type) {
	case string:
		l, h := 0, len(s)
		if lo != nil {
			l = int(c.concInt(lo, "slice bound"))
		}
		if hi != nil {
			h = int(c.concInt(hi, "slice bound"))
		}
		if l < 0 || h > len(s) || l > h {
			c.panicStr("slice bounds out of range")
		}
		return s[l:h]
	case *Rope:
		isStr := false
		if b, ok := in.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			isStr = true
		}
		if lo == nil && hi == nil {
			return s
		}
		if l, ok := lo.(int64); (lo == nil || ok && l == 0) && hi == nil {
			return s
		}
		f := s
		if _, ok := s.fixedLen(); !ok {
			f = c.fixLens(s)
		}
		n, _ := f.fixedLen()
		l, h := 0, n
		if lo != nil {
			l = int(c.concInt(lo, "slice bound"))
		}
		if hi != nil {
			h = int(c.concInt(hi, "slice bound"))
		}
		if l < 0 || l > h || h > n {
			c.panicStr(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
		}
		cs := c.cells(f)[l:h]
		if isStr {
			return ropeVal(c.cellsRope(cs))
		}
		return cs
	case []value:
		return c.sliceCells(s, lo, hi, max)
	case *value:
		if s == nil {
			c.panicStr("invalid memory address or nil pointer dereference")
		}
		a, ok := (*s).(array)
		if !ok {
			c.unsupported(fmt.Sprintf("slice of pointer to %T", *s))
		}
		return c.sliceCells([]value(a), lo, hi, max)
	}
	c.unsupported(fmt.Sprintf("slice of %T", x))
	return nil
}

func (c *Ctx) sliceCells(s []value, lo, hi, max value) value {
	l, h, m := 0, len(s), cap(s)
	if max != nil {
		m = int(c.concInt(max, "slice bound"))
	}
	if hi != nil {
		if p, ok := hi.(*Poly); ok {
			if !c.branch(mkAnd(c.le(pInt(0), p), c.le(p, pInt(int64(cap(s)))))) {
				c.panicStr("slice bounds out of range")
			}
		}
		h = int(c.concInt(hi, "slice bound"))
	}
	if p, ok := lo.(*Poly); ok {
		// symbolic low bound
		if !c.branch(mkAnd(c.le(pInt(0), p), c.le(p, pInt(int64(h))))) {
			c.panicStr("slice bounds out of range")
		}
		k, at, c0 := c.linAtom(p)
		if at != nil && at.kind == aBlen && k.Cmp(mOne) == 0 && c0.IsInt64() {
			return &symSlice{arr: s, lo: p, hi: h, loBase: int(c0.Int64()), x: at.p}
		}
		l = int(c.concInt(lo, "slice bound"))
	} else if lo != nil {
		l = int(c.concInt(lo, "slice bound"))
	}
	if m < 0 || m > cap(s) || h < 0 || h > m || l < 0 || l > h {
		c.panicStr(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cap(s)))
	}
	if s == nil {
		return []value(nil)
	}
	return s[l:h:m]
}

func (c *Ctx) typeAssert(in *ssa.TypeAssert, x value) value {
	i, ok := x.(iface)
	if !ok {
		c.unsupported(fmt.Sprintf("type assertion on %T", x))
	}
	match := false
	var v value
	if i.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if _, h := i.v.(hostObj); h && c.P.isHostType(i.t) {
				match = true
				v = i
				_ = it
			} else {
				match = types.Implements(i.t, it)
				v = i
			}
		} else {
			match = types.Identical(i.t, in.AssertedType)
			v = i.v
		}
	}
	if in.CommaOk {
		if !match {
			v = c.zero(in.AssertedType)
		}
		return tuple{v, match}
	}
	if !match {
		panic(targetPanic{msg: "interface conversion", v: iface{c.P.rtErrType, &hostErr{msg: "interface conversion: wrong type"}}})
	}
	return v
}

// prepare evaluates callee and arguments of a call.
func (fr *frame) prepare(call *ssa.CallCommon) (value, []value) {
	c := fr.c
	if call.IsInvoke() {
		recv := fr.get(call.Value)
		i, ok := recv.(iface)
		if !ok {
			c.unsupported(fmt.Sprintf("invoke on %T", recv))
		}
		if i.t == nil {
			c.panicStr("invalid memory address or nil pointer dereference")
		}
		var args []value
		for _, a := range call.Args {
			args = append(args, fr.get(a))
		}
		if h, ok := i.v.(hostObj); ok {
			name := call.Method.Name()
			return &hostFn{name: name, f: func(c *Ctx, args []value) value { return h.method(c, name, args) }}, args
		}
		f := c.P.lookupMethod(i.t, call.Method)
		if f == nil {
			c.unsupported("method " + call.Method.FullName() + " on " + i.t.String())
		}
		return f, append([]value{i.v}, args...)
	}
	fn := fr.get(call.Value)
	var args []value
	for _, a := range call.Args {
		args = append(args, fr.get(a))
	}
	return fn, args
}

func (fr *frame) callInstr(call *ssa.CallCommon) value {
	fn, args := fr.prepare(call)
	if b, ok := fn.(*ssa.Builtin); ok {
		return fr.builtin(b, args, call)
	}
	for i := range args {
		args[i] = copyVal(args[i])
	}
	return fr.c.callValue(fn, args)
}

func (c *Ctx) lenOf(v value) value {
	switch s := v.(type) {
	case []value:
		return int64(len(s))
	case string:
		return int64(len(s))
	case *Rope:
		acc := pInt(0)
		for _, g := range s.segs {
			if g.tok == nil {
				acc = pAdd(acc, pInt(int64(len(g.s))))
			} else if g.tok.n >= 0 {
				acc = pAdd(acc, pInt(int64(g.b-g.a)))
			} else if g.tok.kind == "vb" {
				acc = pAdd(acc, c.blen(g.tok.p))
			} else {
				acc = pAdd(acc, c.sym("len:"+g.tok.Key(), cNondet, one, big.NewInt(1<<20)))
			}
		}
		return c.intVal(acc, true)
	case *smap:
		if s == nil {
			return int64(0)
		}
		return int64(len(s.m))
	case array:
		return int64(len(s))
	case *value:
		if s != nil {
			return c.lenOf(*s)
		}
	case *hostChan:
		return int64(len(s.q))
	case *symSlice:
		return c.intVal(pSub(pInt(int64(s.hi)), s.lo), true)
	case nil:
		return int64(0)
	}
	c.unsupported(fmt.Sprintf("len of %T", v))
	return nil
}

func (fr *frame) builtin(b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	c := fr.c
	switch b.Name() {
	case "len":
		return c.lenOf(args[0])
	case "cap":
		switch s := args[0].(type) {
		case []value:
			return int64(cap(s))
		case *value:
			return c.lenOf(*s)
		}
		return c.lenOf(args[0])
	case "append":
		return c.appendVals(args[0], args[1])
	case "copy":
		return c.copyVals(args[0], args[1])
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: c.panicMsg(args[0])})
	case "recover":
		pf, _ := c.memo["panicframe"].(*frame)
		if pf != nil && pf.panicking {
			pf.panicking = false
			v := pf.panicVal.v
			if v == nil {
				v = iface{c.P.rtErrType, &hostErr{msg: pf.panicVal.msg}}
			}
			if _, ok := v.(iface); !ok {
				v = iface{types.Typ[types.String], pf.panicVal.msg}
			}
			return v
		}
		return iface{}
	case "delete":
		if c.spec > 0 {
			panic(specAbort{"map"})
		}
		m := args[0].(*smap)
		if m != nil {
			m.remove(c, args[1])
		}
		return nil
	case "clear":
		switch s := args[0].(type) {
		case []value:
			et := call.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range s {
				c.store(&s[i], c.zero(et))
			}
			return nil
		case *smap:
			if c.spec > 0 {
				panic(specAbort{"map"})
			}
			c.wroteMap(s)
			s.m = map[string]mapEnt{}
			s.keys = nil
			return nil
		}
	case "min", "max":
		t := call.Args[0].Type()
		r := args[0]
		for i, a := range args[1:] {
			_ = i
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			switch v := c.binop(op, t, a, r).(type) {
			case bool:
				if v {
					r = a
				}
			case *Pred:
				m, ok := c.mergeVal(v, a, r)
				if !ok {
					c.unsupported("min/max")
				}
				r = m
			}
		}
		return r
	case "close":
		return nil
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			c.panicStr("invalid memory address or nil pointer dereference")
		}
		return args[0]
	}
	c.unsupported("builtin " + b.Name())
	return nil
}

func (c *Ctx) appendVals(a, b value) value {
	_, ra := a.(*Rope)
	_, rb := b.(*Rope)
	if sb, ok := b.(string); ok {
		b = c.bytesVal(ropeStr(sb))
	}
	if ra || rb {
		r := ropeCat(c.bytesRope(a), c.bytesRope(b))
		return c.bytesVal(r)
	}
	if b == nil {
		return a
	}
	if a == nil {
		a = []value(nil)
	}
	s, ok := a.([]value)
	t, ok2 := b.([]value)
	if !ok || !ok2 {
		c.unsupported(fmt.Sprintf("append %T %T", a, b))
	}
	if len(t) == 0 {
		return s
	}
	tc := make([]value, len(t))
	for i := range t {
		tc[i] = copyVal(t[i])
	}
	n := len(s)
	if n+len(t) <= cap(s) {
		r := s[:n+len(t)]
		for i := range tc {
			c.set(&r[n+i], tc[i])
		}
		return r
	}
	nc := 2 * cap(s)
	if nc < n+len(t) {
		nc = n + len(t)
	}
	r := make([]value, n+len(t), nc)
	for i := range s {
		r[i] = s[i]
	}
	copy(r[n:], tc)
	// spare capacity holds zero values of the element kind
	if len(tc) > 0 {
		for i := n + len(t); i < nc; i++ {
			r[:nc][i] = zeroLike(tc[0])
		}
	}
	return r
}

func zeroLike(v value) value {
	switch x := v.(type) {
	case uint64:
		return uint64(0)
	case int64:
		return int64(0)
	case *Poly:
		return uint64(0)
	case *value:
		return (*value)(nil)
	case iface:
		return iface{}
	case string:
		return ""
	case structure:
		r := make(structure, len(x))
		for i := range x {
			r[i] = zeroLike(x[i])
		}
		return r
	}
	return nil
}

func (c *Ctx) copyVals(dst, src value) value {
	if ss, ok := src.(string); ok {
		src = c.bytesVal(ropeStr(ss))
	}
	if d, ok := dst.(*symSlice); ok {
		return c.copySym(d, src)
	}
	d, ok := dst.([]value)
	if !ok {
		if dst == nil {
			return int64(0)
		}
		c.unsupported(fmt.Sprintf("copy to %T", dst))
	}
	var s []value
	switch x := src.(type) {
	case []value:
		s = x
	case *Rope:
		s = c.materialize(x)
	case nil:
	default:
		c.unsupported(fmt.Sprintf("copy from %T", src))
	}
	n := len(d)
	if len(s) < n {
		n = len(s)
	}
	tmp := make([]value, n)
	for i := 0; i < n; i++ {
		tmp[i] = copyVal(s[i])
	}
	for i := 0; i < n; i++ {
		c.store(&d[i], tmp[i])
	}
	return int64(n)
}

// copySym handles right-aligned copies arr[base-len(x):] <- minimal bytes of x.
func (c *Ctx) copySym(d *symSlice, src value) value {
	r := c.bytesRope(src)
	same := len(r.segs) == 1 && r.segs[0].tok != nil && r.segs[0].tok.kind == "vb" && r.segs[0].tok.p.eq(d.x)
	if same && d.hi >= d.loBase {
		// zero cells to the left of base
		w := 0
		for w < d.loBase {
			if z, ok := d.arr[d.loBase-1-w].(uint64); !ok || z != 0 {
				break
			}
			w++
		}
		bl := c.blen(d.x)
		if c.branch(c.le(bl, pInt(int64(w)))) {
			t := c.tokBE(d.x, w)
			for i := 0; i < w; i++ {
				p := c.byteAtom(t, i)
				c.set(&d.arr[d.loBase-w+i], c.intVal(p, false))
			}
			return c.intVal(bl, true)
		}
	}
	// general: fix the length
	lo := int(c.concretize(d.lo, c.H.enumMax()).Int64())
	return c.copyVals(d.arr[lo:d.hi], src)
}
