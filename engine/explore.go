package main

import (
	"fmt"
	"math/big"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	h      *Harness
	prefix []event
}

// harnessResult collects what was explored for one harness.
type harnessResult struct {
	H         *Harness
	paths     int
	complete  int
	ended     map[string]int
	cands     []*cexCand
	inconcl   map[string]int
	notes     map[string]bool
	bounds    map[string]bool
	funcs     map[string]bool
	asserts   int
	trivial   int
	generic   int
	reached   map[string]bool
	witnesses []*Replay
	left      int
	ranges    map[string]*rangeRes
}

const maxHeap = 14 << 30

var memStop atomic.Bool

type explorer struct {
	P        *Program
	st       *Stats
	mu       sync.Mutex
	cond     *sync.Cond
	work     []workItem
	busy     int
	stop     bool
	res      map[*Harness]*harnessResult
	deadline time.Time
	maxSteps int64
	timeout  int
	maxPaths int
	nwit     int
	started  map[*Harness]int
}

func newExplorer(P *Program, hs []*Harness, deadline time.Time) *explorer {
	e := &explorer{P: P, st: &Stats{}, res: map[*Harness]*harnessResult{}, started: map[*Harness]int{}, deadline: deadline, maxSteps: 60e6, timeout: 8000, maxPaths: 200000, nwit: 3}
	if thorough {
		e.maxSteps, e.timeout, e.nwit = 400e6, 40000, 6
	}
	e.cond = sync.NewCond(&e.mu)
	for i := len(hs) - 1; i >= 0; i-- {
		h := hs[i]
		e.res[h] = &harnessResult{H: h, ended: map[string]int{}, inconcl: map[string]int{}, notes: map[string]bool{}, bounds: map[string]bool{}, funcs: map[string]bool{}, reached: map[string]bool{}, ranges: map[string]*rangeRes{}}
		e.work = append(e.work, workItem{h: h})
	}
	return e
}

func (e *explorer) run(n int) {
	var wg sync.WaitGroup
	quit := make(chan bool)
	go func() {
		for {
			select {
			case <-quit:
				return
			case <-time.After(time.Second):
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > maxHeap {
				e.mu.Lock()
				e.stop = true
				e.cond.Broadcast()
				e.mu.Unlock()
				memStop.Store(true)
				fmt.Println("exploration stopped: memory limit")
				return
			}
		}
	}()
	defer close(quit)
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s := newSolver(e.st)
			defer func() { s.Close() }()
			e.worker(s)
		}()
	}
	wg.Wait()
	for _, w := range e.work {
		e.res[w.h].left++
	}
}

func (e *explorer) worker(s *Solver) {
	for {
		e.mu.Lock()
		for len(e.work) == 0 && e.busy > 0 && !e.stop {
			e.cond.Wait()
		}
		if len(e.work) == 0 || e.stop || time.Now().After(e.deadline) {
			e.stop = e.stop || time.Now().After(e.deadline)
			e.cond.Broadcast()
			e.mu.Unlock()
			return
		}
		// the latest item of the harness with the fewest paths so far
		best := len(e.work) - 1
		for i := best - 1; i >= 0; i-- {
			if e.started[e.work[i].h] < e.started[e.work[best].h] {
				best = i
			}
		}
		w := e.work[best]
		e.work = append(e.work[:best], e.work[best+1:]...)
		e.started[w.h]++
		e.busy++
		e.mu.Unlock()
		c := e.runPath(s, w)
		e.mu.Lock()
		e.busy--
		e.collect(w, c)
		e.cond.Broadcast()
		e.mu.Unlock()
	}
}

func (e *explorer) newCtx(s *Solver, w workItem) *Ctx {
	c := &Ctx{P: e.P, H: w.h, atomIdx: map[string]*Atom{}, dlogTab: map[string]*Poly{}, pcKeys: map[string]bool{},
		solver: s, st: e.st, qcache: map[string]int{}, queryTimeout: e.timeout, bvWidth: map[string]int{},
		globals: map[*ssa.Global]*value{}, inited: map[*ssa.Package]bool{}, notes: map[string]bool{},
		maxSteps: e.maxSteps, loopBound: 6, funcs: map[string]bool{}, hosts: map[string]value{},
		coords: map[string][2]*Poly{}, memo: map[string]interface{}{}, bounded: map[string]bool{}, ranges: map[string]*rangeRes{}, deadline: e.deadline.UnixNano()}
	c.log = append([]event{}, w.prefix...)
	if dumpQueries {
		c.dumpQ = os.Stderr
	}
	c.fork = func(p []event) {
		e.mu.Lock()
		e.work = append(e.work, workItem{h: w.h, prefix: p})
		e.cond.Signal()
		e.mu.Unlock()
	}
	return c
}

var dumpQueries = os.Getenv("VERIF_DUMP") != ""
var debugPaths = os.Getenv("VERIF_DEBUG") != ""
var debugSpec = os.Getenv("VERIF_DEBUG") == "3"

func (e *explorer) runPath(s *Solver, w workItem) (c *Ctx) {
	c = e.newCtx(s, w)
	t0 := time.Now()
	outcome := "complete"
	func() {
		defer func() {
			r := recover()
			if r == nil {
				c.done = true
				return
			}
			switch x := r.(type) {
			case pathEnd:
				outcome = x.reason
			case unsupportedErr:
				outcome = "unsupported: " + x.msg
				c.inconcl = append(c.inconcl, x.msg)
			case targetPanic:
				outcome = "panic: " + x.msg
				if c.pos >= len(c.log) {
					rr, m := c.check(true)
					if rr != resUnsat {
						c.candidate("panic: "+x.msg, m, rr == resSat, nil)
					}
				}
			case specAbort:
				outcome = "spec abort outside speculation: " + x.why
				c.inconcl = append(c.inconcl, outcome)
			default:
				outcome = fmt.Sprintf("engine error: %v", r)
				c.inconcl = append(c.inconcl, outcome)
				if debugPaths {
					fmt.Fprintf(os.Stderr, "%v\n%s\n", r, debug.Stack())
				}
			}
		}()
		c.call(w.h.Fn, nil, nil)
	}()
	atomic.AddInt64(&e.st.instrs, c.steps)
	atomic.AddInt64(&e.st.paths, 1)
	atomic.AddInt64(&e.st.generic, int64(c.genericN))
	c.memo["outcome"] = outcome
	if debugPaths {
		fmt.Fprintf(os.Stderr, "[%s] %s steps=%d atoms=%d pc=%d t=%v tags=%v\n", w.h.Name, outcome, c.steps, len(c.atoms), len(c.pc), time.Since(t0).Round(time.Millisecond), c.tagged)
		if os.Getenv("VERIF_DEBUG") == "2" {
			for _, p := range c.pc {
				fmt.Fprintln(os.Stderr, "    pc:", c.showPred(p, 3))
			}
		}
		for _, cc := range c.cands {
			fmt.Fprintf(os.Stderr, "   candidate %s: %.400s\n", cc.label, cc.detail)
		}
	}
	if c.done {
		e.mu.Lock()
		need := len(e.res[w.h].witnesses) < e.nwit
		e.mu.Unlock()
		if need {
			if r, m := c.check(true); r == resSat {
				c.memo["witness"] = c.makeReplay(m)
			}
		}
	}
	return c
}

func (e *explorer) collect(w workItem, c *Ctx) {
	r := e.res[w.h]
	r.paths++
	out := c.memo["outcome"].(string)
	if c.done {
		r.complete++
	} else {
		r.ended[out]++
		atomic.AddInt64(&e.st.pruned, 1)
	}
	for _, m := range c.inconcl {
		r.inconcl[m]++
	}
	for k, x := range c.ranges {
		y := r.ranges[k]
		if y == nil {
			y = x
		}
		for i, h := range x.hit {
			y.hit[i] = y.hit[i] || h
		}
		r.ranges[k] = y
	}
	for k := range c.notes {
		r.notes[k] = true
	}
	for k := range c.bounded {
		r.bounds[k] = true
	}
	for k := range c.funcs {
		r.funcs[k] = true
	}
	for _, k := range c.reached {
		r.reached[k] = true
	}
	r.asserts += c.asserts
	r.trivial += c.trivialA
	r.generic += c.genericN
	r.cands = append(r.cands, c.cands...)
	if wit, ok := c.memo["witness"].(*Replay); ok && len(r.witnesses) < e.nwit {
		r.witnesses = append(r.witnesses, wit)
	}
}

func keysOf[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func shortFn(s string) string {
	return strings.ReplaceAll(s, repoMod, "msc-poc")
}

var _ = big.NewInt
