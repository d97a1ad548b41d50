package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// loops finds the natural loops of a function.  A loop is counted when its
// header (or a block that every iteration passes) leaves it on a comparison of
// an induction variable, or when it ranges over a collection: those end by
// themselves.  Every other loop ("retry until it works") is cut after
// loopBound iterations that branched on symbolic data.
func (fi *fnInfo) computeLoops(fn *ssa.Function) {
	fi.header = map[*ssa.BasicBlock]bool{}
	fi.uncounted = map[*ssa.BasicBlock]bool{}
	fi.inUncounted = map[*ssa.BasicBlock]bool{}
	body := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			m := body[h]
			if m == nil {
				m = map[*ssa.BasicBlock]bool{h: true}
				body[h] = m
			}
			w := []*ssa.BasicBlock{b}
			for len(w) > 0 {
				x := w[len(w)-1]
				w = w[:len(w)-1]
				if m[x] {
					continue
				}
				m[x] = true
				w = append(w, x.Preds...)
			}
		}
	}
	for h, m := range body {
		fi.header[h] = true
		counted := false
		for b := range m {
			in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || m[b.Succs[0]] && m[b.Succs[1]] {
				continue
			}
			every := true
			for _, p := range h.Preds {
				if m[p] && !b.Dominates(p) {
					every = false
				}
			}
			if every && countedExit(in.Cond, h) {
				counted = true
			}
		}
		if !counted {
			fi.uncounted[h] = true
			for b := range m {
				fi.inUncounted[b] = true
			}
		}
	}
}

func countedExit(v ssa.Value, h *ssa.BasicBlock) bool {
	switch v := v.(type) {
	case *ssa.Extract:
		_, ok := v.Tuple.(*ssa.Next)
		return ok
	case *ssa.UnOp:
		return v.Op == token.NOT && countedExit(v.X, h)
	case *ssa.BinOp:
		switch v.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
		default:
			return false
		}
		if induction(v.X, h, 0) {
			return !longConst(v.Y)
		}
		if induction(v.Y, h, 0) {
			return !longConst(v.X)
		}
	}
	return false
}

// longConst: a constant trip count no data structure of the checks reaches is
// an attempt limit.
func longConst(v ssa.Value) bool {
	if k, ok := v.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Int {
		n, exact := constant.Int64Val(k.Value)
		return exact && n > 64
	}
	return false
}

func induction(v ssa.Value, h *ssa.BasicBlock, d int) bool {
	if d > 3 {
		return false
	}
	switch v := v.(type) {
	case *ssa.Phi:
		if v.Block() != h {
			return false
		}
		bt, ok := v.Type().Underlying().(*types.Basic)
		if !ok || bt.Info()&types.IsInteger == 0 {
			return false
		}
		for i, p := range h.Preds {
			if h.Dominates(p) {
				b, ok := v.Edges[i].(*ssa.BinOp)
				if !ok {
					return false
				}
				if b.X != ssa.Value(v) && b.Y != ssa.Value(v) {
					return false
				}
			}
		}
		return true
	case *ssa.BinOp:
		return induction(v.X, h, d+1) || induction(v.Y, h, d+1)
	case *ssa.Convert:
		return induction(v.X, h, d+1)
	}
	return false
}

type loopState struct {
	choices, iters int
}

// enterBlock applies the loop bound when control moves to b.
func (fr *frame) enterBlock(from, b *ssa.BasicBlock) {
	if !fr.info.uncounted[b] {
		return
	}
	c := fr.c
	if fr.loops == nil {
		fr.loops = map[*ssa.BasicBlock]loopState{}
	}
	if !b.Dominates(from) { // entering the loop
		fr.loops[b] = loopState{choices: c.nchoices}
		return
	}
	s := fr.loops[b]
	if c.nchoices > s.choices {
		s.iters++
		s.choices = c.nchoices
		if s.iters > c.loopBound {
			c.bounded[fmt.Sprintf("at most %d symbolic iterations of the loop at %s", c.loopBound, c.P.pos(b.Instrs[0]))] = true
			panic(pathEnd{"loop bound"})
		}
	}
	fr.loops[b] = s
}
