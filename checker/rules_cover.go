package main

import (
	"fmt"
	"go/types"
)

// Loops over the types of a chain and over the properties of a type: all of
// them are looked at, from the first to the last.

type coverIdx struct {
	list *Term
	cell *Term // the variable that holds the position, nil when it is counted by the loop
	idx  *Term
}

type coverTrack struct {
	chain func(list *Term) bool
	mine  func(lc *loopCtx) bool
	bad   func(lc *loopCtx, what string)
	found map[int]map[coverIdx]bool
	mems  map[*loopCtx]map[*Term]*Term
	n     int
	types *Term // the chain

	leaves []leave
}

// enter remembers the memory at the start of the generic iteration.
func (c *coverTrack) enter(x *Exec, lc *loopCtx) {
	m := map[*Term]*Term{}
	for a, cl := range x.mem {
		if _, ok := lc.pre[a]; ok {
			m[a] = cl.v
		}
	}
	c.mems[lc] = m
}

func (c *coverTrack) back(x *Exec, fr *Frame, lc *loopCtx) {
	loops := append(activeLoops(fr), lc)
	see := func(t *Term) {
		list, idx := x.find(t.args[0]), t.args[1]
		base := list
		for base.op == OpSlice {
			base = x.find(base.args[0])
		}
		for _, o := range loops {
			if !c.mine(o) {
				continue
			}
			if list != base && c.chain(base) {
				c.bad(o, "some types of the chain are left out")
				continue
			}
			ci := coverIdx{list: list, idx: idx}
			switch {
			case idx == o.k:
			case idx.has(o.k):
				if c.chain(base) {
					c.bad(o, "the first type of the chain is left out")
				}
				continue
			default:
				for a, v := range c.mems[o] {
					if v == idx {
						ci.cell = a
					}
				}
				if idx.op == OpLoad && ci.cell == nil {
					if _, ok := o.pre[idx.args[0]]; ok {
						ci.cell = idx.args[0]
					}
				}
				if ci.cell == nil {
					offset := idx.contains(func(t *Term) bool {
						if t.op != OpLoad {
							return false
						}
						_, ok := o.pre[t.args[0]]
						return ok
					})
					if offset && c.chain(base) {
						c.bad(o, "the first type of the chain is left out")
					}
					continue
				}
				if cl := o.pre[ci.cell]; cl.v == nil || !x.same(cl.v, x.ts.Int(0)) {
					c.bad(o, "the first is left out")
				}
			}
			if c.found[o.seq] == nil {
				c.found[o.seq] = map[coverIdx]bool{}
			}
			c.found[o.seq][ci] = true
		}
	}
	for ci := range c.found[lc.seq] {
		if ci.cell == nil {
			continue
		}
		now := x.load(ci.cell, types.Typ[types.Int])
		if !x.same(now, x.ts.polyTerm(x.ts.Poly(ci.idx).add(polyConst(1), 1))) {
			c.bad(lc, "some are left out")
		}
	}
	for l := range x.lits {
		l.contains(func(t *Term) bool {
			if isPropName(t) {
				t.contains(func(s *Term) bool {
					if s.op == OpIndexAddr {
						see(s)
					}
					return false
				})
			}
			return false
		})
	}
}

func (c *coverTrack) exit(x *Exec, lc *loopCtx) {
	if c.types != nil {
		// where the loop may be left before its body was walked
		n := x.ts.Poly(x.length(c.types))
		l := leave{lc: lc, past: map[*Term]bool{}}
		l.past[nil] = x.provesLE0(n.add(lc.kcur, -1))
		for a := range lc.pre {
			if a.op != OpAlloc {
				continue
			}
			if pt, ok := a.typ.(*types.Pointer); ok && !isInteger(pt.Elem()) || !ok && (a.typ == nil || !isInteger(a.typ)) {
				continue
			}
			pos := x.ts.Poly(x.load(a, types.Typ[types.Int]))
			l.past[a] = x.provesLE0(n.add(pos, -1)) || x.same(x.ts.polyTerm(n), x.ts.polyTerm(pos))
		}
		c.leaves = append(c.leaves, l)
	}
	for ci := range c.found[lc.seq] {
		n := x.ts.Poly(x.length(ci.list))
		pos := lc.kcur
		if ci.cell != nil {
			pos = x.ts.Poly(x.load(ci.cell, types.Typ[types.Int]))
		}
		c.n++
		if !x.provesLE0(n.add(pos, -1)) && !x.same(x.ts.polyTerm(n), x.ts.polyTerm(pos)) {
			c.bad(lc, fmt.Sprintf("the loop may end before all of %s were looked at", ci.list))
		}
	}
}

type leave struct {
	lc   *loopCtx
	past map[*Term]bool
}

// judge looks at every way out of the loops over the types of the chain.
func (c *coverTrack) judge() {
	for _, l := range c.leaves {
		for ci := range c.found[l.lc.seq] {
			if ci.list == c.types && !l.past[ci.cell] {
				c.bad(l.lc, "the loop may end before all types of the chain were looked at")
			}
		}
	}
}
