package main

import (
	"bufio"
	"crypto/sha256"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	safeMu  sync.Mutex
	safeTab = map[string]*big.Int{}
)

type Stats struct {
	mu                           sync.Mutex
	queries, sat, unsat, unknown int64
	solverNs                     int64
	maxNs                        int64
	instrs                       int64
	paths, pruned                int64
	decisions                    int64
	merges                       int64
	asserts                      int64
	trivial                      int64
	generic                      int64
}

type Solver struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	st  *Stats
	bin string
}

func newSolver(st *Stats) *Solver {
	s := &Solver{st: st, bin: solverBin}
	s.start()
	return s
}

var solverBin = "z3-new"

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver: " + err.Error())
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
}

func (s *Solver) Close() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

// run sends a script ending with an (echo "done") and returns the output lines.
func (s *Solver) run(script string, hard time.Duration) ([]string, bool) {
	done := make(chan struct{})
	killed := int32(0)
	tm := time.AfterFunc(hard, func() {
		atomic.StoreInt32(&killed, 1)
		s.cmd.Process.Kill()
	})
	go func() {
		io.WriteString(s.in, script+"\n(echo \"<<done>>\")\n")
		close(done)
	}()
	var lines []string
	ok := false
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			break
		}
		l = strings.TrimSpace(l)
		if strings.Contains(l, "<<done>>") {
			ok = true
			break
		}
		lines = append(lines, l)
	}
	tm.Stop()
	if !ok {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.start()
	}
	<-done
	return lines, ok
}

type smtEnc struct {
	c     *Ctx
	decl  strings.Builder
	seen  map[int32]bool
	vars  map[string]bool
	bvs   map[string]bool
	divs  map[string]string
	names []int32
	bad   bool
}

func smtInt(v *big.Int) string {
	if v.Sign() < 0 {
		return "(- " + new(big.Int).Neg(v).String() + ")"
	}
	return v.String()
}

func (e *smtEnc) poly(p *Poly) string {
	if len(p.t) == 0 {
		return "0"
	}
	var terms []string
	for _, m := range p.monos() {
		v := p.t[m]
		var fs []string
		if v.Cmp(one) != 0 || m == "" {
			fs = append(fs, smtInt(v))
		}
		for _, f := range factors(m) {
			n := e.atom(e.c.atoms[f.id])
			if f.e < 0 {
				e.bad = true
				fs = append(fs, n)
				continue
			}
			for i := int32(0); i < f.e; i++ {
				fs = append(fs, n)
			}
		}
		if len(fs) == 1 {
			terms = append(terms, fs[0])
		} else {
			terms = append(terms, "(* "+strings.Join(fs, " ")+")")
		}
	}
	if len(terms) == 1 {
		return terms[0]
	}
	return "(+ " + strings.Join(terms, " ") + ")"
}

// quot declares the quotient variable of p by m together with 0 <= p-m*q < m.
func (e *smtEnc) quot(p *Poly, m *big.Int) string {
	// normalise chains: p = (x div m1) -> share x div (m1*m)
	c := e.c
	k := p.Key() + ":" + m.Text(62)
	if v, ok := e.divs[k]; ok {
		return v
	}
	name := fmt.Sprintf("q%d", len(e.divs))
	e.divs[k] = name
	var lower, upper string
	if s := c.single(p); s != nil && s.kind == aDiv {
		mm := new(big.Int).Mul(s.m, m)
		q := e.quot(s.p, mm)
		e.divs[k] = q
		// also relate: s = m*q + r
		sn := e.atom(s)
		fmt.Fprintf(&e.decl, "(assert (and (<= (* %s %s) %s) (< %s (+ (* %s %s) %s))))\n", m, q, sn, sn, m, q, m)
		return q
	}
	ps := e.poly(p)
	fmt.Fprintf(&e.decl, "(declare-const %s Int)\n", name)
	lower = fmt.Sprintf("(<= (* %s %s) %s)", m, name, ps)
	upper = fmt.Sprintf("(< %s (+ (* %s %s) %s))", ps, m, name, m)
	fmt.Fprintf(&e.decl, "(assert (and %s %s))\n", lower, upper)
	return name
}

func (e *smtEnc) atom(a *Atom) string {
	n := fmt.Sprintf("a%d", a.id)
	if e.seen[a.id] {
		return n
	}
	e.seen[a.id] = true
	e.names = append(e.names, a.id)
	switch a.kind {
	case aDiv:
		if s := e.c.single(a.p); s == nil || s.kind != aDiv {
			q := e.quot(a.p, a.m)
			fmt.Fprintf(&e.decl, "(define-const %s Int %s)\n", n, q)
			return n
		}
		q := e.quot(a.p, a.m)
		fmt.Fprintf(&e.decl, "(define-const %s Int %s)\n", n, q)
		return n
	case aMod:
		q := e.quot(a.p, a.m)
		ps := e.poly(a.p)
		fmt.Fprintf(&e.decl, "(define-const %s Int (- %s (* %s %s)))\n", n, ps, a.m, q)
		return n
	case aInd:
		ps := e.pred(a.pred)
		fmt.Fprintf(&e.decl, "(define-const %s Int (ite %s 1 0))\n", n, ps)
		return n
	case aCmp:
		ps := e.poly(a.p)
		fmt.Fprintf(&e.decl, "(define-const %s Int (ite (< %s 0) (- 1) (ite (= %s 0) 0 1)))\n", n, ps, ps)
		return n
	case aBlen:
		ps := e.poly(a.p)
		max := 1
		if a.hi != nil {
			max = int(a.hi.Int64())
		}
		s := smtInt(big.NewInt(int64(max)))
		for i := max - 1; i >= 0; i-- {
			s = fmt.Sprintf("(ite (< %s %s) %d %s)", ps, new(big.Int).Lsh(one, uint(a.lenUnit()*i)), i, s)
		}
		fmt.Fprintf(&e.decl, "(define-const %s Int %s)\n", n, s)
		return n
	case aByte:
		if a.tok.kind == "be" {
			sh := new(big.Int).Lsh(one, uint(8*(a.tok.n-1-a.idx)))
			q1 := e.c.mkMod(e.c.mkDiv(a.tok.p, sh), big.NewInt(256))
			ps := e.poly(q1)
			fmt.Fprintf(&e.decl, "(define-const %s Int %s)\n", n, ps)
			return n
		}
	}
	fmt.Fprintf(&e.decl, "(declare-const %s Int)\n", n)
	if a.lo != nil {
		fmt.Fprintf(&e.decl, "(assert (<= %s %s))\n", smtInt(a.lo), n)
	}
	if a.hi != nil {
		fmt.Fprintf(&e.decl, "(assert (<= %s %s))\n", n, smtInt(a.hi))
	}
	if a.linked() {
		// the smallest value belongs to the identity and to nothing else
		q := e.c.eq0(pSub(e.c.atomPoly(a), pConst(a.lo)))
		if q.op == pFalse {
			fmt.Fprintf(&e.decl, "(assert (not (= %s %s)))\n", n, smtInt(a.lo))
		} else {
			fmt.Fprintf(&e.decl, "(assert (= (= %s %s) %s))\n", n, smtInt(a.lo), e.pred(q))
		}
	}
	return n
}

// linked: an element value that is related to its logarithm in queries.
func (a *Atom) linked() bool {
	return (a.kind == aPow || a.kind == aCoordX || a.kind == aCoordY) && !a.generic && a.lo != nil && len(a.p.t) <= 8
}

func (e *smtEnc) pred(q *Pred) string {
	switch q.op {
	case pTrue:
		return "true"
	case pFalse:
		return "false"
	case pNot:
		return "(not " + e.pred(q.args[0]) + ")"
	case pAnd, pOr:
		s := make([]string, len(q.args))
		for i, a := range q.args {
			s[i] = e.pred(a)
		}
		if q.op == pAnd {
			return "(and " + strings.Join(s, " ") + ")"
		}
		return "(or " + strings.Join(s, " ") + ")"
	case pEq0:
		return "(= " + e.poly(q.p) + " 0)"
	case pLe0:
		return "(<= " + e.poly(q.p) + " 0)"
	case pZm:
		return "(= (mod " + e.poly(q.p) + " " + q.n.String() + ") 0)"
	case pBV:
		for _, v := range q.vars {
			if !e.bvs[v] {
				e.bvs[v] = true
				fmt.Fprintf(&e.decl, "(declare-const %s (_ BitVec %d))\n", v, e.c.bvWidth[v])
			}
		}
		return q.smt
	case pVar:
		if !e.vars[q.smt] {
			e.vars[q.smt] = true
			fmt.Fprintf(&e.decl, "(declare-const %s Bool)\n", q.smt)
		}
		return q.smt
	}
	panic("pred op")
}

type Model struct {
	ints map[int32]*big.Int // atom id -> value
	bvs  map[string]*big.Int
	bs   map[string]bool
}

const (
	resUnsat = iota
	resSat
	resUnknown
)

func (c *Ctx) atomDeps(p *Poly, out map[string]bool) {
	for m := range p.t {
		for i := 0; i < len(m); i += 8 {
			f := factors(m[i : i+8])[0]
			c.atomDep(c.atoms[f.id], out)
		}
	}
}
func (c *Ctx) atomDep(a *Atom, out map[string]bool) {
	k := fmt.Sprint(a.id)
	if out[k] {
		return
	}
	out[k] = true
	if a.kind == aSym || (a.kind == aPow || a.kind == aCoordX || a.kind == aCoordY) && !a.linked() {
		return
	}
	if a.p != nil {
		c.atomDeps(a.p, out)
	}
	if a.tok != nil && a.tok.p != nil {
		c.atomDeps(a.tok.p, out)
	}
	if a.pred != nil {
		c.predDeps(a.pred, out)
	}
}
func (c *Ctx) predDeps(q *Pred, out map[string]bool) {
	if q.p != nil {
		c.atomDeps(q.p, out)
	}
	for _, v := range q.vars {
		out["v"+v] = true
	}
	if q.op == pVar {
		out["b"+q.smt] = true
	}
	for _, a := range q.args {
		c.predDeps(a, out)
	}
}

// slice returns the path-condition members sharing (transitively) atoms with q.
func (c *Ctx) sliceFor(qs []*Pred) []*Pred {
	dep := map[string]bool{}
	for _, q := range qs {
		c.predDeps(q, dep)
	}
	used := make([]bool, len(c.pc))
	var out []*Pred
	for changed := true; changed; {
		changed = false
		for i, p := range c.pc {
			if used[i] {
				continue
			}
			d := c.pcDeps[i]
			hit := false
			for k := range d {
				if dep[k] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				for k := range d {
					dep[k] = true
				}
				out = append(out, p)
			}
		}
	}
	return out
}

// check decides satisfiability of pc ∧ qs.
func (c *Ctx) check(want bool, qs ...*Pred) (int, *Model) {
	for _, q := range qs {
		if q.op == pFalse {
			c.st.trivial++
			return resUnsat, nil
		}
	}
	pcs := c.pc
	if !want {
		pcs = c.sliceFor(qs)
	}
	n0 := len(c.atoms)
	defer c.dropAtoms(n0)
	e := &smtEnc{c: c, seen: map[int32]bool{}, vars: map[string]bool{}, bvs: map[string]bool{}, divs: map[string]string{}}
	var body strings.Builder
	for _, p := range append(append([]*Pred{}, pcs...), qs...) {
		s := e.pred(p)
		fmt.Fprintf(&body, "(assert %s)\n", s)
	}
	key := ""
	if !want {
		key = e.decl.String() + body.String()
		if r, ok := c.qcache[key]; ok {
			return r, nil
		}
	}
	to := c.queryTimeout
	script := fmt.Sprintf("(reset)\n(set-option :timeout %d)\n%s%s(check-sat)\n", to, e.decl.String(), body.String())
	if want {
		ids := e.names
		sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
		var g []string
		for _, id := range ids {
			g = append(g, fmt.Sprintf("a%d", id))
		}
		for _, v := range sortedKeys(e.bvs) {
			g = append(g, v)
		}
		for _, v := range sortedKeys(e.vars) {
			g = append(g, v)
		}
		if len(g) > 0 {
			script += "(get-value (" + strings.Join(g, " ") + "))\n"
		}
	}
	t0 := time.Now()
	lines, ok := c.solver.run(script, time.Duration(to)*time.Millisecond*3+2*time.Second)
	dt := time.Since(t0).Nanoseconds()
	atomic.AddInt64(&c.st.queries, 1)
	atomic.AddInt64(&c.st.solverNs, dt)
	for {
		old := atomic.LoadInt64(&c.st.maxNs)
		if dt <= old || atomic.CompareAndSwapInt64(&c.st.maxNs, old, dt) {
			break
		}
	}
	if c.dumpQ != nil {
		fmt.Fprintf(c.dumpQ, "; %dms\n%s\n; => %v\n", dt/1e6, script, lines)
	}
	res := resUnknown
	if ok {
		for i, l := range lines {
			if strings.HasPrefix(l, "(error") && res == resUnknown {
				c.note("solver error: " + l)
				break
			}
			if l == "sat" {
				res = resSat
				if want {
					m := parseModel(strings.Join(lines[i+1:], " "))
					atomic.AddInt64(&c.st.sat, 1)
					if e.bad {
						return resUnknown, m
					}
					return resSat, c.spreadModel(e, script, m, to)
				}
				break
			}
			if l == "unsat" {
				res = resUnsat
				break
			}
			if l == "unknown" || l == "timeout" {
				break
			}
		}
	}
	if e.bad && res == resSat {
		res = resUnknown
	}
	if e.bad && res == resUnsat {
		res = resUnknown // inverse atoms were misrepresented
	}
	switch res {
	case resSat:
		atomic.AddInt64(&c.st.sat, 1)
	case resUnsat:
		atomic.AddInt64(&c.st.unsat, 1)
	default:
		atomic.AddInt64(&c.st.unknown, 1)
	}
	if !want {
		c.qcache[key] = res
	}
	return res, nil
}

// spreadModel looks for a model of the same query in which the values in
// generic position (draws, hash values) are as unrelated as they are taken to
// be, instead of all being the same small number.
func (c *Ctx) spreadModel(e *smtEnc, script string, m *Model, to int) *Model {
	var ids []int32
	for _, id := range e.names {
		if a := c.atoms[id]; a.kind == aSym && a.generic && a.lo != nil && a.hi != nil {
			ids = append(ids, id)
		}
	}
	if len(ids) == 0 || len(ids) > 200 {
		return m
	}
	pin := func(id int32) string {
		a := c.atoms[id]
		h := sha256.Sum256([]byte("spread" + a.name))
		v := new(big.Int).SetBytes(h[:])
		for w := new(big.Int).Sub(a.hi, a.lo); v.BitLen() < w.BitLen(); {
			v.Lsh(v, 256).Add(v, new(big.Int).SetBytes(h[:]))
		}
		v.Mod(v, new(big.Int).Add(new(big.Int).Sub(a.hi, a.lo), one)).Add(v, a.lo)
		if v.Sign() < 0 {
			return fmt.Sprintf("(assert (= a%d (- %s)))\n", id, new(big.Int).Neg(v))
		}
		return fmt.Sprintf("(assert (= a%d %s))\n", id, v)
	}
	try := func(ids []int32, base string) string {
		for _, id := range ids {
			base += pin(id)
		}
		return base
	}
	run := func(pins string) *Model {
		sc := strings.Replace(script, "(check-sat)\n", pins+"(check-sat)\n", 1)
		lines, ok := c.solver.run(sc, time.Duration(to)*time.Millisecond*3+2*time.Second)
		for i, l := range lines {
			if ok && l == "sat" {
				return parseModel(strings.Join(lines[i+1:], " "))
			}
		}
		return nil
	}
	if r := run(try(ids, "")); r != nil {
		return r
	}
	if len(ids) > 12 {
		return m
	}
	pins := ""
	for _, id := range ids {
		if r := run(pins + pin(id)); r != nil {
			pins, m = pins+pin(id), r
		}
	}
	return m
}

func parseModel(s string) *Model {
	m := &Model{ints: map[int32]*big.Int{}, bvs: map[string]*big.Int{}, bs: map[string]bool{}}
	toks := tokenize(s)
	// ((name value) (name value) ...)
	i := 0
	if len(toks) > 0 && toks[0] == "(" {
		i = 1
	}
	for i < len(toks) && toks[i] == "(" {
		name := toks[i+1]
		i += 2
		if toks[i] == "(" { // (- N)
			v, _ := new(big.Int).SetString(toks[i+2], 10)
			if v != nil {
				v.Neg(v)
				m.set(name, v)
			}
			i += 4
		} else {
			t := toks[i]
			if t == "true" || t == "false" {
				m.bs[name] = t == "true"
			} else if strings.HasPrefix(t, "#x") {
				v, _ := new(big.Int).SetString(t[2:], 16)
				m.bvs[name] = v
			} else if strings.HasPrefix(t, "#b") {
				v, _ := new(big.Int).SetString(t[2:], 2)
				m.bvs[name] = v
			} else if v, ok := new(big.Int).SetString(t, 10); ok {
				m.set(name, v)
			}
			i++
		}
		for i < len(toks) && toks[i] == ")" {
			i++
		}
	}
	return m
}
func (m *Model) set(name string, v *big.Int) {
	var id int32
	if _, err := fmt.Sscanf(name, "a%d", &id); err == nil {
		m.ints[id] = v
	}
}
func tokenize(s string) []string {
	s = strings.ReplaceAll(s, "(", " ( ")
	s = strings.ReplaceAll(s, ")", " ) ")
	return strings.Fields(s)
}
