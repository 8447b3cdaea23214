package main

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// C14: what the pool of gaps does with its lists.
//
// The value of a list is taken apart into pieces of the list it was before and
// single elements.

type piece struct {
	of     *Term // nil for a single element
	lo, hi *Poly
	el     *Term
}

type listAlgebra struct {
	x    *Exec
	init map[*Term]bool // the lists at the start
	over map[*Term][]piece
	flds map[*Term]map[string]*Term
}

// pieces of the list t.
func (l *listAlgebra) pieces(t *Term) ([]piece, bool) {
	x := l.x
	t = x.find(t)
	var out []piece
	switch {
	case l.over[t] != nil:
		out = append(out, l.over[t]...)
	case l.init[t]:
		out = []piece{{of: t, lo: polyConst(0), hi: x.ts.Poly(x.length(t))}}
		if x.entailsEq(out[0].hi) {
			out = nil
		}
	case t.op == OpNil || t.op == OpSlice && t.aux == "make" && x.entailsEq(x.ts.Poly(t.args[2])):
	case t.op == OpSlice && t.aux == "":
		in, ok := l.pieces(t.args[0])
		if !ok {
			return nil, false
		}
		n := polyConst(0)
		for _, p := range in {
			n = plus(n, l.size(p))
		}
		lo, hi := x.ts.Poly(t.args[1]), n
		if t.args[2].op != OpNil {
			hi = x.ts.Poly(t.args[2])
		}
		if out, ok = l.cut(in, lo, hi); !ok {
			return nil, false
		}
	case t.op == OpAppend:
		a, ok := l.pieces(t.args[0])
		if !ok {
			return nil, false
		}
		out = append(out, a...)
		if t.aux == "..." {
			b, ok := l.pieces(t.args[1])
			if !ok {
				return nil, false
			}
			out = append(out, b...)
		} else {
			for _, e := range t.args[1:] {
				out = append(out, piece{el: x.find(e)})
			}
		}
	default:
		return nil, false
	}
	return l.overwrite(t, out)
}

func callBase(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '[' || s[i] == '#' {
			return s[:i]
		}
	}
	return s
}

// library answers slices.Insert and slices.Delete.
func (l *listAlgebra) library(name string, args []*Term) *Term {
	x := l.x
	if len(args) < 3 {
		return nil
	}
	name = callBase(name)
	if name != "slices.Insert" && name != "slices.Delete" {
		return nil
	}
	in, ok := l.pieces(args[0])
	if !ok {
		return nil
	}
	n := polyConst(0)
	for _, p := range in {
		n = plus(n, l.size(p))
	}
	i, j := x.ts.Poly(args[1]), x.ts.Poly(args[1])
	var mid []piece
	if name == "slices.Delete" {
		j = x.ts.Poly(args[2])
	} else {
		els, ok := x.varargs(x.find(args[2]))
		if !ok {
			return nil
		}
		for _, e := range els {
			mid = append(mid, piece{el: x.find(e)})
		}
	}
	a, ok1 := l.cut(in, polyConst(0), i)
	b, ok2 := l.cut(in, j, n)
	if !ok1 || !ok2 {
		return nil
	}
	t := x.ts.fresh(OpSym, name, nil)
	setM(x, l.over, t, append(append(append([]piece{}, a...), mid...), b...))
	if len(l.over[t]) == 0 {
		setM(x, l.over, t, []piece{})
	}
	return t
}

// copied notes what the builtin copy does to a list.
func (l *listAlgebra) copied(dst, src *Term) {
	x := l.x
	dst = x.find(dst)
	base, off := dst, polyConst(0)
	for base.op == OpSlice && base.aux == "" && base.args[2].op == OpNil {
		off = plus(off, x.ts.Poly(base.args[1]))
		base = x.find(base.args[0])
	}
	all, ok := l.pieces(base)
	from, ok2 := l.pieces(src)
	if !ok || !ok2 || base.op == OpSlice {
		return
	}
	size := func(ps []piece) *Poly {
		n := polyConst(0)
		for _, p := range ps {
			n = plus(n, l.size(p))
		}
		return n
	}
	n, k := size(all), size(from)
	if room := minus(n, off); !x.entails(minus(k, room)) {
		if !x.entails(minus(room, k)) {
			return
		}
		if from, ok = l.cut(from, polyConst(0), room); !ok {
			return
		}
		k = room
	}
	a, ok1 := l.cut(all, polyConst(0), off)
	b, ok2 := l.cut(all, plus(off, k), n)
	if ok1 && ok2 {
		setM(x, l.over, base, append(append(append([]piece{}, a...), from...), b...))
	}
}

func (l *listAlgebra) size(p piece) *Poly {
	if p.of == nil {
		return polyConst(1)
	}
	return minus(p.hi, p.lo)
}

// cut takes the elements from lo up to hi.
func (l *listAlgebra) cut(in []piece, lo, hi *Poly) ([]piece, bool) {
	x := l.x
	var out []piece
	pos := polyConst(0)
	for _, p := range in {
		end := plus(pos, l.size(p))
		switch {
		case x.entails(minus(end, lo)) || x.entails(minus(hi, pos)):
			// not in the part
		case x.entails(minus(lo, pos)) && x.entails(minus(end, hi)):
			out = append(out, p)
		case p.of != nil:
			q := p
			if !x.entails(minus(lo, pos)) {
				if !x.entails(minus(pos, lo)) {
					return nil, false
				}
				q.lo = plus(p.lo, minus(lo, pos))
			}
			if !x.entails(minus(end, hi)) {
				if !x.entails(minus(hi, end)) {
					return nil, false
				}
				q.hi = plus(p.lo, minus(hi, pos))
			}
			out = append(out, q)
		default:
			return nil, false
		}
		pos = end
	}
	return out, true
}

// overwrite applies the stores to elements of the list t.
func (l *listAlgebra) overwrite(t *Term, in []piece) ([]piece, bool) {
	x := l.x
	idx := map[*Term]map[string]*Term{}
	var order []*Term
	for a, c := range x.mem {
		f := ""
		e := a
		if a.op == OpFieldAddr {
			_, _, n, _ := fieldOf(a)
			f, e = n, a.args[0]
		}
		if e.op == OpIndexAddr && x.find(e.args[0]) == t {
			if idx[e] == nil {
				idx[e] = map[string]*Term{}
				order = append(order, e)
			}
			idx[e][f] = c.v
		}
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	for _, e := range order {
		i := x.ts.Poly(e.args[1])
		n := polyConst(0)
		for _, p := range in {
			n = plus(n, l.size(p))
		}
		a, ok1 := l.cut(in, polyConst(0), i)
		b, ok2 := l.cut(in, plusC(i, 1), n)
		if !ok1 || !ok2 {
			return nil, false
		}
		l.flds[e] = idx[e]
		in = append(append(append([]piece{}, a...), piece{el: e}), b...)
	}
	return in, true
}

// elem tells what an element is: the same as an element of an initial list at
// some index, or made of the parts of v.
func (l *listAlgebra) source(e *Term) (list *Term, idx *Poly, from *Term) {
	x := l.x
	var addr func(t *Term) (*Term, string)
	addr = func(t *Term) (*Term, string) {
		t = x.find(t)
		if t.op == OpLoad && t.aux == "0" && t.args[0].op == OpFieldAddr {
			_, _, f, _ := fieldOf(t.args[0])
			return t.args[0].args[0], f
		}
		if t.op == OpField {
			_, f := shortAux(t.aux)
			return x.find(t.args[0]), f
		}
		return nil, ""
	}
	fields := l.flds[e]
	if fields == nil {
		if e.op != OpStruct {
			return nil, nil, e
		}
		fields = map[string]*Term{}
		st := e.typ.Underlying().(*types.Struct)
		for i, a := range e.args {
			fields[st.Field(i).Name()] = a
		}
	}
	if v := fields[""]; v != nil {
		return nil, nil, x.find(v)
	}
	var base *Term
	for n, v := range fields {
		b, f := addr(v)
		if b == nil || f != n || base != nil && b != base {
			return nil, nil, nil
		}
		base = b
	}
	if base != nil && base.op == OpIndexAddr && l.init[x.find(base.args[0])] {
		return x.find(base.args[0]), x.ts.Poly(base.args[1]), nil
	}
	return nil, nil, base
}

// tidy turns elements that are elements of an initial list into pieces of it.
func (l *listAlgebra) tidy(in []piece) []piece {
	var out []piece
	for _, p := range in {
		if p.of == nil {
			if s, i, _ := l.source(p.el); s != nil {
				p = piece{of: s, lo: i, hi: plusC(i, 1)}
			}
		}
		if p.of != nil && l.x.entails(minus(p.hi, p.lo)) {
			continue
		}
		out = append(out, p)
	}
	return out
}

// covers: the pieces, taken in some order, are the list s without the elements
// from lo up to hi, each once.
func (l *listAlgebra) covers(in []piece, s *Term, gapLo, gapHi *Poly) bool {
	x := l.x
	n := x.ts.Poly(x.length(s))
	pos := polyConst(0)
	left := append([]piece{}, in...)
	for {
		if gapLo != nil && x.entailsEq(minus(pos, gapLo)) {
			pos, gapLo = gapHi, nil
		}
		if len(left) == 0 {
			return gapLo == nil && x.entails(minus(n, pos))
		}
		next := -1
		for i, p := range left {
			if p.of == s && x.entailsEq(minus(p.lo, pos)) {
				next = i
			}
		}
		if next < 0 {
			return false
		}
		if gapLo != nil && !x.entails(minus(left[next].hi, gapLo)) {
			return false
		}
		pos = left[next].hi
		left = append(left[:next], left[next+1:]...)
	}
}

func checkPool(p *Prog, r *Report) {
	var gets, adds []*ssa.Function
	for _, f := range p.funcs {
		if !inPkg(f, pkgGap) || f.Signature.Recv() == nil || len(f.Params) == 0 {
			continue
		}
		if pt, ok := f.Params[0].Type().(*types.Pointer); !ok || structName(pt.Elem()) != p.mod+"/"+pkgGap+".Pool" {
			continue
		}
		switch poolRole(f) {
		case "get":
			gets = append(gets, f)
		case "add":
			adds = append(adds, f)
		}
	}
	pool := p.named(pkgGap, "Pool")
	if len(gets) == 0 || len(adds) == 0 || pool == nil {
		r.missing("the methods of the gap pool")
		return
	}
	st, _ := pool.Underlying().(*types.Struct)
	for _, f := range append(append([]*ssa.Function{}, gets...), adds...) {
		var l *listAlgebra
		x := newExec(p, Hooks{
			Opaque: func(g *ssa.Function) bool { return !inPkg(g, pkgGap) },
			Subst: func(x *Exec, name string, f *ssa.Function, args []*Term) *Term {
				return l.library(name, args)
			},
			Copy: func(x *Exec, dst, src *Term) { l.copied(dst, src) },
			Panic: func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
			},
		})
		x.linear = true
		args := x.params(f)
		lists := map[int]*Term{}
		l = &listAlgebra{x: x, init: map[*Term]bool{}, over: map[*Term][]piece{}, flds: map[*Term]map[string]*Term{}}
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Slice); ok {
				lists[i] = x.load(x.FieldAddr(args[0], pool, i), st.Field(i).Type())
				l.init[lists[i]] = true
			} else {
				r.bad("pool", p.fname(f)+" "+st.Field(i).Name(), p.pos(f.Pos()), "the gaps are not kept in lists")
			}
		}
		name, pos := p.fname(f), p.pos(f.Pos())
		x.run(f, args, func(fr *Frame, res *Term) {
			l.flds = map[*Term]map[string]*Term{}
			var got *Term
			var i *Poly
			if poolRole(f) == "get" {
				res = x.find(res)
				t, ok := res.args[0], res.args[1]
				switch x.truth(ok) {
				case yes:
					got, i, _ = l.source(x.find(t))
					r.ob("pool-get", name+" returns an element", got != nil, pos, "the gap handed out is not one of the gaps of the pool")
					if got == nil {
						return
					}
					l.fits(r, f, args, got, i, name, pos)
				case no:
				default:
					r.ob("pool-get", name+" found", false, pos, "cannot tell whether a gap is handed out")
					return
				}
			}
			for k, s := range lists {
				what := name + " " + st.Field(k).Name()
				in, ok := l.pieces(x.load(x.FieldAddr(args[0], pool, k), st.Field(k).Type()))
				if !ok {
					r.ob("pool-list", what, false, pos, "cannot follow what becomes of the list of gaps")
					continue
				}
				in = l.tidy(in)
				if poolRole(f) == "get" {
					if s == got {
						r.ob("pool-get", what+" without the gap handed out", l.covers(in, s, i, plusC(i, 1)), pos, "the gap handed out is not removed from the pool, or another one is")
					} else {
						r.ob("pool-get", what+" unchanged", l.covers(in, s, nil, nil), pos, "gaps that are not handed out are lost or doubled")
					}
					continue
				}
				var rest []piece
				n := 0
				good := true
				for _, q := range in {
					if q.of == nil {
						n++
						_, _, from := l.source(q.el)
						good = good && from != nil && (from == args[1] || (from.op == OpAssert || from.op == OpIface) && x.find(from.args[0]) == args[1])
						continue
					}
					rest = append(rest, q)
				}
				r.ob("pool-add", what+" keeps the others", l.covers(rest, s, nil, nil), pos, "adding a gap loses or doubles another one")
				r.ob("pool-add", what+" once", good && n <= 1, pos, "what is added is not the gap given, or it is added twice")
			}
		})
		r.done(x, name)
		r.ob("pool-path", name, x.fail == "", pos, "%s", x.fail)
	}
}

// fits judges the gap handed out against the request.
func (l *listAlgebra) fits(r *Report, f *ssa.Function, args []*Term, list *Term, i *Poly, name, pos string) {
	x := l.x
	t := f.Signature.Results().At(0).Type()
	st := t.Underlying().(*types.Struct)
	at := x.ts.mk(OpIndexAddr, "", nil, list, x.ts.polyTerm(i))
	val := map[string]*Term{}
	for k := 0; k < st.NumFields(); k++ {
		a := x.FieldAddr(at, t, k)
		val[st.Field(k).Name()] = x.ts.mk(OpLoad, "0", nil, a)
	}
	for k, q := range f.Params[1:] {
		a := args[k+1]
		switch {
		case isInteger(q.Type()):
			w := plusC(minus(polyAtom(val["EndBit"]), polyAtom(val["StartBit"])), 1)
			r.ob("pool-get", name+" width", x.entails(minus(x.ts.Poly(a), w)), pos, "the gap handed out may be narrower than asked for")
		case isBool(q.Type()):
			r.ob("pool-get", name+" write safe", x.truth(a) == no || x.truth(val["WriteSafe"]) == yes, pos, "a gap that is not write safe may be handed out where write safety is asked for")
		}
	}
}
