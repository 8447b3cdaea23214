package main

import (
	"strings"

	"go/types"

	"golang.org/x/tools/go/ssa"
)

// eachTrack summarises loops: an event of kind "act" that every iteration of a
// finished loop performed becomes an event of kind "each". The number of the
// iteration is replaced by a parameter, so that the same loop walked on several
// paths gives the same terms. Loops may be nested.
type eachTrack struct {
	sets map[*loopCtx]map[eachKey]*Event
	// shot gives what to remember of an element when it is collected
	shot func(x *Exec, el *Term) *Term
}

type eachKey string

func (e *Event) id() eachKey {
	k := e.Kind + "/" + e.Name
	for _, a := range e.Args {
		k += "/" + itoa(a.id)
	}
	return eachKey(k)
}

func itoa(i int) string { return string(appendInt(nil, i)) }

func appendInt(b []byte, i int) []byte {
	if i >= 10 {
		b = appendInt(b, i/10)
	}
	return append(b, byte('0'+i%10))
}

// hook adds the tracker to the hooks of a walk.
func (e *eachTrack) hook(h *Hooks) {
	e.sets = map[*loopCtx]map[eachKey]*Event{}
	back, exit := h.BackEdge, h.LoopExit
	store := h.Store
	h.Store = func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if e.shot != nil && addr.op == OpIndexAddr {
			e.filled(x, addr, val)
		}
		if v := x.find(val); v.op == OpAppend && v.aux == "" && len(v.args) == 2 {
			if st, ok := in.(*ssa.Store); ok && x.find(v.args[0]) == x.find(x.load(addr, st.Val.Type())) {
				e.collect(x, addr, x.find(v.args[1]))
			}
		}
		if store != nil {
			store(x, fr, in, addr, val)
		}
	}
	h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
		if x.quiet == 0 {
			for p, v := range next {
				v := x.find(v)
				if v.op == OpAppend && v.aux == "" && len(v.args) == 2 && x.find(v.args[0]) == x.find(lc.phi[p]) {
					e.collect(x, x.find(lc.phi[p]), x.find(v.args[1]))
				}
			}
		}
		e.back(x, lc)
		if back != nil {
			back(x, fr, lc, next)
		}
	}
	h.LoopExit = func(x *Exec, fr *Frame, lc *loopCtx) {
		e.exit(x, lc)
		if exit != nil {
			exit(x, fr, lc)
		}
	}
}

// collect tells that an element is added to a list, given by the variable that
// holds it.
func (e *eachTrack) collect(x *Exec, to, el *Term) {
	if x.quiet > 0 {
		return
	}
	if e.shot != nil {
		el = e.shot(x, el)
	}
	e.act(x, "collect", to, el)
}

// madeList gives the memory of a list that was made in its full length.
func madeList(x *Exec, list *Term) *Term {
	list = x.find(list)
	if list.op == OpSlice && list.aux == "make" {
		list = x.find(list.args[0])
	}
	if list.op == OpAlloc && strings.HasPrefix(list.aux, "make") {
		return list
	}
	return nil
}

// filled tells that an element of a list made in its full length is set, at
// the position of the element of the other list it is made of.
func (e *eachTrack) filled(x *Exec, addr, val *Term) {
	list := madeList(x, addr.args[0])
	if list == nil || x.quiet > 0 {
		return
	}
	el := x.find(val)
	if e.shot != nil {
		el = e.shot(x, el)
	}
	e.act(x, "fill", list, el, x.find(addr.args[1]))
}

// collected finds how a finished list was filled: one element for every
// element of another list. It gives that list and the event.
func (e *eachTrack) collected(x *Exec, list *Term, t types.Type) (from *Term, ev *Event) {
	list = x.find(list)
	for i := range x.events {
		v := &x.events[i]
		if v.Kind != "each" || v.Name != "collect" && v.Name != "fill" || len(v.over) != 1 {
			continue
		}
		to := v.Args[0]
		if v.Name == "fill" {
			if madeList(x, list) != to {
				continue
			}
			// at its own position, in a list of the same length
			if ev != nil || v.times != 1 || v.Args[2] != x.ts.mk(OpParam, "κ0", nil) || x.find(x.length(list)) != x.find(x.length(v.over[0])) {
				return nil, nil
			}
			from, ev = v.over[0], v
			continue
		}
		if to.op == OpFieldAddr || to.op == OpAlloc || to.op == OpIndexAddr {
			to = x.find(x.load(to, t))
		}
		if to != list {
			continue
		}
		if ev != nil || v.times != 1 {
			return nil, nil
		}
		from, ev = v.over[0], v
	}
	return
}

// act tells that something is done.
func (e *eachTrack) act(x *Exec, name string, args ...*Term) {
	if x.quiet > 0 {
		return
	}
	x.event(Event{Kind: "act", Name: name, Args: args})
}

func (e *eachTrack) back(x *Exec, lc *loopCtx) {
	now := map[eachKey]*Event{}
	evs := x.events[lc.evMark:]
	for i := range evs {
		ev := evs[i]
		if ev.Kind == "act" || ev.Kind == "each" {
			ev.Args = append([]*Term{}, ev.Args...)
			for i, a := range ev.Args {
				ev.Args[i] = x.find(a)
			}
			if o := now[ev.id()]; o != nil {
				o.times++
				continue
			}
			ev.times = 1
			now[ev.id()] = &ev
		}
	}
	old, seen := e.sets[lc]
	if !seen {
		e.sets[lc] = now
		return
	}
	for k, o := range old {
		n := now[k]
		if n == nil {
			delete(old, k)
			continue
		}
		if n.times != o.times {
			o.times = -1
		}
	}
}

func (e *eachTrack) exit(x *Exec, lc *loopCtx) {
	for _, ev := range e.sets[lc] {
		n := *ev
		n.Kind = "each"
		n.Args = append([]*Term{}, ev.Args...)
		level := len(n.over)
		k := x.ts.mk(OpParam, "κ"+itoa(level), nil)
		full := false
		var list *Term
		if lc.rng != nil && lc.rng.coll != nil {
			list = lc.rng.coll
			full = true
			for i, a := range n.Args {
				if lc.rng.key != nil {
					a = x.substTerm(a, lc.rng.key, k)
				}
				if lc.rng.val != nil {
					a = x.substTerm(a, lc.rng.val, x.ts.mk(OpLookup, "", nil, list, k))
				}
				n.Args[i] = a
			}
			n.over = append([]*Term{}, n.over...)
			for i, o := range n.over {
				if lc.rng.key != nil {
					o = x.substTerm(o, lc.rng.key, k)
				}
				if lc.rng.val != nil {
					o = x.substTerm(o, lc.rng.val, x.ts.mk(OpLookup, "", nil, list, k))
				}
				n.over[i] = o
			}
		} else {
			for i, a := range n.Args {
				a.contains(func(t *Term) bool {
					if (t.op == OpIndexAddr || t.op == OpIndex) && t.args[1] == lc.k && x.provesLE0(x.ts.Poly(x.length(t.args[0])).add(lc.kcur, -1)) {
						list, full = t.args[0], true
					}
					return false
				})
				n.Args[i] = x.substTerm(a, lc.k, k)
			}
			for i, o := range n.over {
				n.over = append([]*Term{}, n.over...)
				n.over[i] = x.substTerm(o, lc.k, k)
			}
		}
		if !full {
			continue
		}
		n.over = append(append([]*Term{}, n.over...), list)
		x.event(n)
	}
}

// element gives the element of list that an event of the given nesting is about.
func (e *eachTrack) element(x *Exec, list *Term, level int) *Term {
	return x.ts.mk(OpIndexAddr, "", nil, list, x.ts.mk(OpParam, "κ"+itoa(level), nil))
}

// done tells whether what was done for every element of list, counted: the
// number of times, 0 when it was not done for every element, -1 when it varies.
func (e *eachTrack) done(x *Exec, name string, match func(list *Term, args []*Term, el *Term) bool) int {
	n := 0
	for _, ev := range x.events {
		if ev.Kind != "each" || ev.Name != name || len(ev.over) != 1 {
			continue
		}
		if match(ev.over[0], ev.Args, e.element(x, ev.over[0], 0)) {
			if ev.times < 0 {
				return -1
			}
			n += ev.times
		}
	}
	return n
}
