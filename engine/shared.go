package main

// Writes to memory that concurrent calls share.

// watching is the set of cells that existed and were shared when a call started.
type watching struct {
	cells map[*value]bool
	maps  map[*smap]bool
	locks int
	where string // the function that made the first unprotected write
}

func (w *watching) walk(v value, depth int) {
	if depth > 80 {
		return
	}
	switch x := v.(type) {
	case structure:
		for i := range x {
			w.cells[&x[i]] = true
			w.walk(x[i], depth+1)
		}
	case array:
		for i := range x {
			w.cells[&x[i]] = true
			w.walk(x[i], depth+1)
		}
	case []value:
		x = x[:cap(x)]
		for i := range x {
			w.cells[&x[i]] = true
			w.walk(x[i], depth+1)
		}
	case *value:
		if x != nil && !w.cells[x] {
			w.cells[x] = true
			w.walk(*x, depth+1)
		}
	case iface:
		w.walk(x.v, depth+1)
	case *hostElem:
		if x != nil {
			w.walk(x.box, depth+1)
		}
	case *hostHash:
		w.cells[&x.buf] = true
	case *closure:
		if x != nil {
			for _, v := range x.env {
				w.walk(v, depth+1)
			}
		}
	case *hostScalar:
		if x != nil {
			w.cells[&x.v] = true
		}
	case *smap:
		if x != nil && !w.maps[x] {
			w.maps[x] = true
			for _, e := range x.m {
				w.walk(e.v, depth+1)
			}
		}
	}
}

func (c *Ctx) wrote(p *value) {
	if w := c.watch; w.locks == 0 && w.where == "" && w.cells[p] {
		w.where = c.whereNow()
	}
}

func (c *Ctx) wroteMap(m *smap) {
	if w := c.watch; w != nil && w.locks == 0 && w.where == "" && w.maps[m] {
		w.where = c.whereNow()
	}
}

func (c *Ctx) whereNow() string {
	for i := len(c.curFn) - 1; i >= 0; i-- {
		if c.curFn[i].repo {
			return "write to shared memory in " + c.curFn[i].n
		}
	}
	return "write to shared memory"
}

func (c *Ctx) locked(d int) {
	if c.watch != nil {
		c.watch.locks += d
	}
}

func init() {
	reg("github.com/takakv/msc-poc/verifrt.Shared", func(c *Ctx, a []value) value {
		if c.spec > 0 {
			panic(specAbort{"shared call"})
		}
		label := c.mustStr(a[0], "label")
		w := &watching{cells: map[*value]bool{}, maps: map[*smap]bool{}}
		if roots, ok := a[2].([]value); ok {
			for _, r := range roots {
				w.walk(r, 0)
			}
		}
		for g, p := range c.globals {
			if g.Pkg != nil && g.Name() != "init$guard" {
				w.walk(p, 0)
			}
		}
		if c.watch != nil {
			c.unsupported("nested shared calls")
		}
		c.watch = w
		c.callValue(a[1], nil)
		c.watch = nil
		c.asserts++
		if e := c.nextEvent('x'); e != nil {
			return nil
		}
		c.record(event{kind: 'x'})
		if w.where == "" {
			c.trivialA++
			return nil
		}
		if r, m := c.check(true); r != resUnsat {
			c.candidate(label, m, r == resSat, nil)
			k := c.cands[len(c.cands)-1]
			k.detail, k.race = w.where, true
		}
		return nil
	})
}
