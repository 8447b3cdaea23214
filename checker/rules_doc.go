package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: documentation comments reach their symbol.

// docCheck follows comments in the functions that build the syntax tree.
type docCheck struct {
	p    *Prog
	r    *Report
	doc  *types.Named // the type of documentation
	com  *types.Named // the comment token
	line *ssa.Function
	li   int // the field of doc that holds the lines
}

func (c *docCheck) isDoc(t types.Type) bool { return types.Identical(t, c.doc) }

// nodeKind: t is a node of the syntax tree that has documentation.
func (c *docCheck) nodeKind(t types.Type) *types.Named {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() != c.doc.Obj().Pkg() {
		return nil
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	doc, name := false, false
	for i := 0; i < st.NumFields(); i++ {
		doc = doc || c.isDoc(st.Field(i).Type())
		name = name || st.Field(i).Name() == "Name"
	}
	if doc && name {
		return n
	}
	return nil
}

func (c *docCheck) docField(n *types.Named) int {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if c.isDoc(st.Field(i).Type()) {
			return i
		}
	}
	return -1
}

func fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

// givesNode: the kind of node a function builds, one or a list.
func (c *docCheck) givesNode(f *ssa.Function) (n *types.Named, list bool) {
	rs := f.Signature.Results()
	if !inPkg(f, pkgAst) || rs.Len() == 0 {
		return nil, false
	}
	t := rs.At(0).Type()
	if s, ok := t.Underlying().(*types.Slice); ok {
		return c.nodeKind(s.Elem()), true
	}
	return c.nodeKind(t), false
}

func (c *docCheck) givesDoc(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return inPkg(f, pkgAst) && f.Signature.Recv() == nil && rs.Len() > 0 && c.isDoc(rs.At(0).Type()) && len(f.Params) > 0 && isPtrTo(f.Params[0].Type(), pkgAst, "context")
}

// holds: a function that makes whole files, bodies or lists of nodes.
func (c *docCheck) holds(f *ssa.Function) bool {
	if !inPkg(f, pkgAst) || f.Signature.Recv() != nil || f.Parent() != nil || len(f.Blocks) == 0 {
		return false
	}
	if n, list := c.givesNode(f); n != nil {
		return list
	}
	rs := f.Signature.Results()
	if rs.Len() == 0 {
		return false
	}
	st, ok := rs.At(0).Type().Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && c.nodeKind(s.Elem()) != nil {
			return true
		}
	}
	return false
}

// makesPart: the function makes some part of the tree of its own.
func (c *docCheck) makesPart(f *ssa.Function) bool {
	if !inPkg(f, pkgAst) || f.Signature.Recv() != nil {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() < 1 {
		return false
	}
	t := rs.At(0).Type()
	if c.isDoc(t) {
		return c.givesDoc(f)
	}
	if s, ok := t.Underlying().(*types.Slice); ok {
		t = s.Elem()
	}
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() == c.doc.Obj().Pkg() && len(f.Params) > 0 && isPtrTo(f.Params[0].Type(), pkgAst, "context")
}

// lineOf is the line of a token.
func (c *docCheck) lineOf(x *Exec, t *Term, T types.Type) *Term {
	sel := c.p.ssa.MethodSets.MethodSet(T).Lookup(nil, "Line")
	if sel == nil {
		return nil
	}
	return x.value(c.p.ssa.MethodValue(sel), t)
}

func (c *docCheck) lines(x *Exec, d *Term) *Term { return x.find(x.Field(x.find(d), c.doc, c.li)) }

// ends compares the line of the last comment, and n more, with that of the
// token.
func (c *docCheck) ends(x *Exec, d *Term, n int64, t *Term, T types.Type) tri {
	return c.endsAt(x, c.lines(x, d), n, t, T)
}

func (c *docCheck) endsAt(x *Exec, l *Term, n int64, t *Term, T types.Type) tri {
	last := x.loadElem(l, x.ts.polyTerm(x.ts.Poly(x.length(l)).add(polyConst(1), -1)), c.com)
	a, b := c.lineOf(x, last, c.com), c.lineOf(x, t, T)
	if a == nil || b == nil {
		return unknown
	}
	a = x.ts.polyTerm(x.ts.Poly(a).add(polyConst(n), 1))
	return x.eqPoly(a, b)
}

// eqPoly compares numbers, also by comparisons of other sums that amount to the
// same.
func (x *Exec) eqPoly(a, b *Term) tri {
	if t := x.truth(x.ts.Bin(token.EQL, a, b, true)); t != unknown {
		return t
	}
	d := x.ts.Poly(a).add(x.ts.Poly(b), -1)
	for l, v := range x.lits {
		if v || l.op != OpBin || l.aux != "==" || !x.isNumeric(l.args[0]) && !x.isNumeric(l.args[1]) {
			continue
		}
		e := x.ts.Poly(l.args[0]).add(x.ts.Poly(l.args[1]), -1)
		if x.samePoly(d, e) || x.samePoly(d, polyConst(0).add(e, -1)) {
			return no
		}
	}
	return unknown
}

func (c *docCheck) empty(x *Exec, d *Term) bool {
	return x.provesLE0(x.ts.Poly(x.length(c.lines(x, d))))
}

// turn is what is known at the start of an iteration.
type docTurn struct {
	holders []*Term // documentation read before
	cells   map[*Term]*Term
	names   map[*Term]*Term
}

func (c *docCheck) start(x *Exec, lc *loopCtx) *docTurn {
	t := &docTurn{cells: map[*Term]*Term{}, names: map[*Term]*Term{}}
	for ph, v := range lc.phi {
		if c.isDoc(ph.Type()) {
			t.holders = append(t.holders, x.find(v))
		}
	}
	for a := range c.allocs(x, lc.fr) {
		if c.isDoc(a.typ) {
			v := x.find(x.load(a, c.doc))
			t.cells[a] = v
			t.holders = append(t.holders, v)
		} else if n := c.nodeKind(a.typ); n != nil {
			i := c.docField(n)
			v := x.find(x.load(x.FieldAddr(a, n, i), c.doc))
			t.cells[a] = v
			t.holders = append(t.holders, v)
			j := fieldIndex(n, "Name")
			t.names[a] = x.find(x.load(x.FieldAddr(a, n, j), n.Underlying().(*types.Struct).Field(j).Type()))
		}
	}
	return t
}

// allocs lists the variables that hold documentation.
func (c *docCheck) allocs(x *Exec, fr *Frame) map[*Term]bool {
	out := map[*Term]bool{}
	for ; fr != nil; fr = fr.caller {
		for v, t := range fr.env {
			if _, ok := v.(*ssa.Alloc); ok && t.op == OpAlloc && t.typ != nil && (c.isDoc(t.typ) || c.nodeKind(t.typ) != nil) {
				out[t] = true
			}
		}
	}
	return out
}

// judge decides about one symbol: its documentation, that of before, whether
// there was none before, its name and the comments it may get.
func (c *docCheck) judge(x *Exec, what string, d, d0 *Term, bare bool, name *Term, N types.Type, hs []*Term, pos string) {
	ok := false
	why := "no comment before it is looked at"
	for _, h := range hs {
		eq := c.ends(x, h, 1, name, N)
		switch {
		case c.empty(x, h):
			ok = ok || x.same(d, h) || d0 != nil && x.same(d, d0) || c.empty(x, d)
		case x.same(d, h):
			ok = ok || eq == yes
			why = "it gets a comment that may end on another line than the one above it"
		case d0 != nil && x.same(d, d0) || c.empty(x, d) && bare:
			ok = ok || eq == no
			why = "it may go without the comment that ends on the line above it"
		}
	}
	c.r.ob("attached", what, ok, pos, "%s", why)
}

func (c *docCheck) walk(f *ssa.Function) {
	p, r := c.p, c.r
	pos := p.pos(f.Pos())
	turns := map[*loopCtx]*docTurn{}
	var h Hooks
	h.Opaque = func(g *ssa.Function) bool { return g != f && c.makesPart(g) || inPkg(g, pkgTok) && g.Name() == "Parse" }
	h.LoopEnter = func(x *Exec, fr *Frame, lc *loopCtx) { turns[lc] = c.start(x, lc) }
	h.Ret = func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term, res *Term) {
		if callee == nil || callee == f || x.quiet > 0 {
			return
		}
		res0 := res
		if callee.Signature.Results().Len() > 1 {
			res0 = x.find(x.extract(res, 0))
		}
		if c.givesDoc(callee) {
			x.event(Event{Kind: "comment", Fn: callee, Res: res0, Pos: in.Pos()})
		} else if n, list := c.givesNode(callee); n != nil && c.makesPart(callee) {
			ev := Event{Kind: "node", Fn: callee, Res: res0, Pos: in.Pos()}
			if list {
				ev.Args = []*Term{x.find(x.loadElem(res0, x.ts.Int(0), n))}
			}
			x.event(ev)
		} else if c.makesPart(callee) {
			x.event(Event{Kind: "part"})
		}
	}
	collect := func(x *Exec, v *Term, t types.Type) {
		s, ok := t.Underlying().(*types.Slice)
		if !ok || x.quiet > 0 || c.nodeKind(s.Elem()) == nil || v.op != OpAppend || len(v.args) != 2 {
			return
		}
		x.event(Event{Kind: "kept", Name: v.aux, Args: []*Term{x.find(v.args[1])}})
	}
	h.Store = func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if st, ok := in.(*ssa.Store); ok {
			collect(x, x.find(val), st.Val.Type())
		}
	}
	x := newExec(p, h)
	x.h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
		if x.quiet > 0 {
			return
		}
		for ph, v := range next {
			collect(x, x.find(v), ph.Type())
		}
		t := turns[lc]
		if t == nil {
			return
		}
		hs := append([]*Term{}, t.holders...)
		evs := x.events[lc.evMark:]
		var comments []*Term
		symbol := false
		for _, e := range evs {
			switch e.Kind {
			case "comment":
				comments = append(comments, e.Res)
				hs = append(hs, e.Res)
			case "node":
				symbol = true
			}
		}
		// every symbol that was read is kept
		for _, e := range evs {
			if e.Kind != "node" {
				continue
			}
			n, list := c.givesNode(e.Fn)
			N := n.Underlying().(*types.Struct).Field(fieldIndex(n, "Name")).Type()
			kept := 0
			if list {
				if x.provesLE0(x.ts.Poly(x.length(e.Res))) {
					continue
				}
				for _, k := range evs {
					if k.Kind == "kept" && x.same(k.Args[0], e.Res) && k.Name != "" {
						kept++
					}
				}
				el := x.loadElem(e.Res, x.ts.Int(0), n)
				d := x.Field(el, n, c.docField(n))
				d0 := x.Field(e.Args[0], n, c.docField(n))
				c.judge(x, n.Obj().Name()+" in "+p.fname(fr.fn), d, d0, false, x.Field(el, n, fieldIndex(n, "Name")), N, hs, p.pos(e.Pos))
			} else {
				nm := x.Field(e.Res, n, fieldIndex(n, "Name"))
				for _, k := range evs {
					if k.Kind == "kept" && k.Name == "" && k.Args[0].op != OpTuple && x.same(x.Field(k.Args[0], n, fieldIndex(n, "Name")), nm) {
						kept++
						c.judge(x, n.Obj().Name()+" in "+p.fname(fr.fn), x.Field(k.Args[0], n, c.docField(n)), x.Field(e.Res, n, c.docField(n)), true, nm, N, hs, p.pos(e.Pos))
					}
				}
			}
			r.ob("kept", n.Obj().Name()+" in "+p.fname(fr.fn), kept == 1, p.pos(e.Pos), "a %s that was read is not kept, or twice", strings.ToLower(n.Obj().Name()))
		}
		// symbols made in place
		now := map[*Term]*Term{}
		for a, d := range t.cells {
			n := c.nodeKind(a.typ)
			if n == nil {
				now[a] = x.find(x.load(a, c.doc))
				continue
			}
			nd := x.find(x.load(x.FieldAddr(a, n, c.docField(n)), c.doc))
			now[a] = nd
			j := fieldIndex(n, "Name")
			N := n.Underlying().(*types.Struct).Field(j).Type()
			nn := x.find(x.load(x.FieldAddr(a, n, j), N))
			what := n.Obj().Name() + " in " + p.fname(fr.fn)
			built := false
			for _, e := range evs {
				if e.Kind == "node" {
					if m, list := c.givesNode(e.Fn); m == n && !list {
						built = built || x.same(nn, x.Field(e.Res, n, j))
					}
				}
			}
			switch {
			case built:
			case x.same(nn, t.names[a]):
				isNew := false
				for _, q := range comments {
					isNew = isNew || x.same(nd, q)
				}
				r.ob("unchanged", what, x.same(nd, d) || isNew, pos, "the documentation of a symbol changes after its name was read")
			case x.same(nn, x.zero(N)):
				r.ob("fresh", what, c.empty(x, nd), pos, "the documentation of a symbol is left for the next")
			default:
				symbol = true
				c.judge(x, what, nd, nil, true, nn, N, hs, pos)
			}
		}
		// nothing that was read is lost
		if len(comments) > 0 && !symbol {
			last := comments[len(comments)-1]
			ok := false
			for ph, v := range next {
				ok = ok || c.isDoc(ph.Type()) && x.same(v, last)
			}
			for _, v := range now {
				ok = ok || x.same(v, last)
			}
			r.ob("remembered", p.fname(fr.fn), ok, pos, "a comment that was read is forgotten before the next symbol")
		} else if !symbol {
			keeps := true
			part := false
			for _, e := range evs {
				part = part || e.Kind == "part"
			}
			for ph, v := range next {
				if c.isDoc(ph.Type()) {
					keeps = keeps && x.same(v, lc.phi[ph])
				}
			}
			for a, v := range now {
				if c.isDoc(a.typ) {
					keeps = keeps && x.same(v, t.cells[a])
				}
			}
			r.ob("remembered", p.fname(fr.fn)+" later", keeps || part, pos, "a comment that was read is forgotten before the next symbol")
		}
	}
	x.run(f, x.params(f), func(fr *Frame, res *Term) {})
	r.done(x, p.fname(f))
}

// single: a node is made without documentation, it is attached later.
func (c *docCheck) single(f *ssa.Function) {
	n, _ := c.givesNode(f)
	x := newExec(c.p, Hooks{Opaque: func(g *ssa.Function) bool { return g != f && c.makesPart(g) }})
	made := 0
	x.run(f, x.params(f), func(fr *Frame, res *Term) {
		if !succeeded(x, f, res) {
			return
		}
		v := res
		if f.Signature.Results().Len() > 1 {
			v = x.extract(res, 0)
		}
		made++
		c.r.ob("bare", n.Obj().Name(), c.empty(x, x.Field(x.find(v), n, c.docField(n))), c.p.pos(f.Pos()), "a %s gets documentation from elsewhere", strings.ToLower(n.Obj().Name()))
	})
	c.r.done(x, c.p.fname(f))
	c.r.ob("bare", n.Obj().Name()+" made", made > 0, c.p.pos(f.Pos()), "no %s can be made", n.Obj().Name())
}

// block judges the function that reads a block of comments.
func (c *docCheck) block(f *ssa.Function) {
	p, r := c.p, c.r
	pos := p.pos(f.Pos())
	x := newExec(p, Hooks{})
	args := x.params(f)
	ctx := args[0]
	C := deref(f.Params[0].Type())
	ii := fieldIndex(C, "idx")
	if ii < 0 {
		r.missing("the place in the stream of tokens")
		return
	}
	it := C.Underlying().(*types.Struct).Field(ii).Type()
	idx := func() *Term { return x.find(x.load(x.FieldAddr(ctx, C, ii), it)) }
	// the lines so far
	isLines := func(t types.Type) bool {
		s, ok := t.Underlying().(*types.Slice)
		return ok && types.Identical(s.Elem(), c.com)
	}
	cur := func(lc *loopCtx, next map[*ssa.Phi]*Term) *Term {
		for ph, v := range lc.phi {
			if next != nil {
				v = next[ph]
			}
			if c.isDoc(ph.Type()) {
				return c.lines(x, v)
			}
			if isLines(ph.Type()) {
				return x.find(v)
			}
		}
		for a := range c.allocs(x, lc.fr) {
			if c.isDoc(a.typ) {
				return c.lines(x, x.load(a, c.doc))
			}
		}
		return nil
	}
	type turn struct {
		d, i *Term
		post bool // the place in the stream moves on at the end of a turn
	}
	turns := map[*loopCtx]turn{}
	i0 := idx()
	var main *loopCtx
	at := func(t, i *Term) bool {
		// the token at position i
		t = x.find(t)
		for t.op == OpAssert || t.op == OpIface {
			t = x.find(t.args[0])
		}
		return t.op == OpLoad && t.args[0].op == OpIndexAddr && x.samePoly(x.ts.Poly(t.args[0].args[1]), x.ts.Poly(i))
	}
	same := func(el *Term, i *Term) bool {
		el = x.find(el)
		if el.op == OpExtract {
			el = x.find(el.args[0])
		}
		return at(el, i)
	}
	only := func(l, i *Term) bool {
		n, ok := x.length(l).intVal()
		return ok && n == 1 && same(x.loadElem(l, x.ts.Int(0), c.com), i)
	}
	isA := func(i *Term, T types.Type) tri {
		for l, b := range x.lits {
			if l.op == OpAssertOk && types.Identical(l.typ, T) && at(l.args[0], i) {
				if b {
					return yes
				}
				return no
			}
		}
		return unknown
	}
	x.h.LoopEnter = func(x *Exec, fr *Frame, lc *loopCtx) {
		if x.quiet > 0 || fr.fn != f {
			return
		}
		main = lc
		for ph, e := range lc.entry {
			if c.isDoc(ph.Type()) {
				r.ob("block", "first", only(c.lines(x, e), i0), pos, "the first comment is not in the block")
			}
			if isLines(ph.Type()) {
				r.ob("block", "first", only(x.find(e), i0), pos, "the first comment is not in the block")
			}
		}
		for a, pre := range lc.pre {
			if rootOf(a).op == OpAlloc && rootOf(a).typ != nil && c.isDoc(rootOf(a).typ) {
				r.ob("block", "first", only(pre.v, i0), pos, "the first comment is not in the block")
			}
		}
		post := false
		if pre, ok := lc.pre[x.FieldAddr(ctx, C, ii)]; ok {
			post = x.samePoly(x.ts.Poly(pre.v), x.ts.Poly(i0).add(polyConst(1), 1))
			r.ob("block", "enter", post || x.same(pre.v, i0), pos, "a token behind the first comment is left out")
		}
		turns[lc] = turn{cur(lc, nil), idx(), post}
	}
	x.h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
		t := turns[lc]
		if x.quiet > 0 || t.d == nil {
			return
		}
		d := cur(lc, next)
		i := idx()
		r.ob("block", "step", x.samePoly(x.ts.Poly(i), x.ts.Poly(t.i).add(polyConst(1), 1)), pos, "a token is left out, or looked at twice")
		if t.post {
			i = t.i
		}
		if isA(i, c.com) != yes {
			r.ob("block", "other", x.same(d, t.d), pos, "the comments change without a comment")
			return
		}
		l, l0 := d, t.d
		tok := x.find(x.loadElem(l, x.ts.polyTerm(x.ts.Poly(x.length(l)).add(polyConst(1), -1)), c.com))
		eq := c.endsAt(x, l0, 1, tok, c.com)
		added := l.op == OpAppend && l.aux == "" && x.same(l.args[0], l0) && same(l.args[1], i)
		ok := false
		switch {
		case x.provesLE0(x.ts.Poly(x.length(l0))):
			ok = added || only(l, i)
		case added:
			ok = eq == yes
		case only(l, i):
			ok = eq == no
		}
		r.ob("block", "line", ok, pos, "a comment is not added to the block right above it, or to one that is not right above it")
	}
	x.run(f, args, func(fr *Frame, res *Term) {
		if main == nil {
			r.ob("block", "result", false, pos, "only one comment is read")
			return
		}
		v := res
		if f.Signature.Results().Len() > 1 {
			v = x.extract(res, 0)
		}
		i := idx()
		if turns[main].d == nil {
			r.ob("block", "result", false, pos, "the comments are not kept in a variable")
			return
		}
		r.ob("block", "result", x.same(c.lines(x, v), turns[main].d) && (turns[main].post && x.same(i, turns[main].i) || !turns[main].post && x.samePoly(x.ts.Poly(i), x.ts.Poly(turns[main].i).add(polyConst(1), 1))), pos, "the block that was read is not the one returned")
		end := isA(i, c.com) == no
		if nl := p.named(pkgTok, "Newline"); nl != nil {
			end = end && isA(i, nl) == no
		}
		if eof := p.named(pkgTok, "Eof"); eof != nil {
			end = end || isA(i, eof) == yes
		}
		r.ob("block", "end", end, pos, "the block ends before all its comments were read")
	})
	r.done(x, p.fname(f))
	r.ob("block", "first", r.obs["block|first"] != nil, pos, "no such place was found")
	r.ob("block", "line", r.obs["block|line"] != nil, pos, "no such place was found")
}

// text judges the method that gives the text of documentation.
func (c *docCheck) text(f *ssa.Function) {
	p, r := c.p, c.r
	pos := p.pos(f.Pos())
	var h Hooks
	h.Opaque = func(g *ssa.Function) bool { return inPkg(g, pkgTok) && g.Name() == "Text" }
	e := eachTrack{}
	x := newExec(p, h)
	args := x.params(f)
	lines := c.lines(x, args[0])
	var src *Term
	for i, q := range f.Params {
		if s, ok := q.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.Uint8]) {
			src = args[i]
		}
	}
	// the comment of this turn
	comment := func(t *Term) bool {
		t = x.find(t)
		if t.op != OpCall || !strings.HasPrefix(t.aux, pkgTok+".Text") || len(t.args) != 2 || x.find(t.args[1]) != src {
			return false
		}
		return true
	}
	elem := func(t, k *Term) bool {
		a := placeOf(x, x.find(t.args[0]))
		return a != nil && a.op == OpIndexAddr && x.find(a.args[0]) == lines && x.same(a.args[1], k)
	}
	space := func(t *Term) tri {
		n := x.length(t)
		if x.provesLE0(x.ts.Poly(n).add(polyConst(1), -1)) {
			return no
		}
		for l, b := range x.lits {
			hit := l.op == OpBin && l.aux == "==" && (isCharAt(x, l.args[0], t, 1) && isChar(l.args[1], ' ') || isCharAt(x, l.args[1], t, 1) && isChar(l.args[0], ' '))
			hit = hit || l.op == OpCall && strings.HasPrefix(l.aux, "strings.HasPrefix") && len(l.args) == 2 && x.find(l.args[0]) == t && x.same(l.args[1], x.ts.Str("# "))
			if hit {
				if b {
					return yes
				}
				return no
			}
		}
		return unknown
	}
	// clean: v is the comment without its mark and one space
	clean := func(v *Term, t *Term) bool {
		v = x.find(v)
		if v.op == OpSlice && len(v.args) >= 2 && x.find(v.args[0]) == t {
			lo, ok := x.find(v.args[1]).intVal()
			hi := len(v.args) < 3 || v.args[2].op == OpNil || x.same(v.args[2], x.length(t))
			return ok && hi && (lo == 2 && space(t) == yes || lo == 1 && space(t) == no)
		}
		if v.op == OpCall && strings.HasPrefix(v.aux, "strings.TrimPrefix") && len(v.args) == 2 && x.same(v.args[1], x.ts.Str(" ")) {
			w := x.find(v.args[0])
			if w.op == OpSlice && x.find(w.args[0]) == t && x.same(w.args[1], x.ts.Int(1)) {
				return true
			}
			return w.op == OpCall && strings.HasPrefix(w.aux, "strings.TrimPrefix") && x.find(w.args[0]) == t && x.same(w.args[1], x.ts.Str("#"))
		}
		return false
	}
	none := func(t *Term) bool {
		n := x.ts.Poly(x.length(t))
		return x.provesLE0(n.add(polyConst(1), -1)) || x.provesLE0(n.add(polyConst(2), -1)) && space(t) == yes
	}
	done := false
	x.h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
		if x.quiet > 0 || fr.fn != f {
			return
		}
		for ph, v := range next {
			if b, ok := ph.Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
				if s, ok := ph.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), types.Typ[types.String]) {
					v := x.find(v)
					ok := v.op == OpAppend && v.aux == "" && x.same(v.args[0], lc.phi[ph])
					if ok {
						var t *Term
						v.args[1].contains(func(u *Term) bool {
							if comment(u) && elem(u, lc.k) {
								t = u
							}
							return false
						})
						for l := range x.lits {
							l.contains(func(u *Term) bool {
								if comment(u) && elem(u, lc.k) {
									t = u
								}
								return false
							})
						}
						ok = t != nil && (clean(v.args[1], t) || none(t) && x.same(v.args[1], x.ts.Str("")))
					}
					done = true
					r.ob("text", "line", ok, pos, "the text of a comment is not added as it is")
				}
				continue
			}
			// text so far, the line, the end of the line
			parts := concat(x, v)
			ok := len(parts) > 0 && x.same(parts[0], lc.phi[ph])
			var t *Term
			for l := range x.lits {
				l.contains(func(u *Term) bool {
					if comment(u) && elem(u, lc.k) {
						t = u
					}
					return false
				})
			}
			for _, q := range parts {
				q.contains(func(u *Term) bool {
					if comment(u) && elem(u, lc.k) {
						t = u
					}
					return false
				})
			}
			if t == nil {
				// the phi may be of something else
				if len(parts) > 1 || !ok {
					r.ob("text", "line", false, pos, "the text of a comment is not added")
				}
				continue
			}
			done = true
			if ok {
				parts = parts[1:]
				last := x.truth(x.ts.Bin(token.LSS, lc.k, x.ts.polyTerm(x.ts.Poly(x.length(lines)).add(polyConst(1), -1)), true))
				if last == yes && len(parts) > 0 && x.same(parts[len(parts)-1], x.ts.Str("\n")) {
					parts = parts[:len(parts)-1]
				} else if last != no {
					ok = false
				}
				ok = ok && (len(parts) == 1 && clean(parts[0], t) || len(parts) == 0 && none(t))
			}
			r.ob("text", "line", ok, pos, "the text of a comment is not added as it is and on a line of its own")
		}
	}
	e.hook(&x.h)
	x.run(f, args, func(fr *Frame, res *Term) {
		v := x.find(res)
		ok := false
		if v.op == OpCall && strings.HasPrefix(v.aux, "strings.Join") && len(v.args) == 2 {
			ok = x.same(v.args[1], x.ts.Str("\n"))
		} else {
			ok = len(concat(x, v)) == 1
		}
		r.ob("text", "result", ok, pos, "the text is not made of the comments only")
	})
	r.done(x, p.fname(f))
	r.ob("text", "found", done, pos, "the comments are not gone through")
}

// concat lists the parts of a text.
func concat(x *Exec, t *Term) []*Term {
	t = x.find(t)
	if t.op == OpBin && t.aux == "+" {
		return append(concat(x, t.args[0]), concat(x, t.args[1])...)
	}
	return []*Term{t}
}

func isChar(t *Term, ch int64) bool {
	v, ok := t.intVal()
	return ok && v == ch
}

func isCharAt(x *Exec, c, t *Term, i int64) bool {
	for c.op == OpConv {
		c = c.args[0]
	}
	if (c.op == OpIndex || c.op == OpLookup) && len(c.args) == 2 && x.find(c.args[0]) == t {
		v, ok := x.find(c.args[1]).intVal()
		return ok && v == i
	}
	return false
}

// output: what is instantiated has the documentation of its instantiation.
func (c *docCheck) output() {
	p, r := c.p, c.r
	F := p.named(pkgFn, "Func")
	if F == nil {
		r.missing("the attributes of all functionalities")
		return
	}
	di := fieldIndex(F, "Doc")
	if di < 0 {
		r.missing("the documentation of a functionality")
		return
	}
	// the functions that make them
	var makers []*ssa.Function
	for _, f := range p.funcs {
		rs := f.Signature.Results()
		if inPkg(f, pkgIns) && len(f.Blocks) > 0 && rs.Len() > 0 && types.Identical(rs.At(0).Type(), F) && chainParam(p, f) >= 0 {
			makers = append(makers, f)
		}
	}
	isMaker := func(g *ssa.Function) bool {
		for _, m := range makers {
			if m == g {
				return true
			}
		}
		return false
	}
	for _, f := range makers {
		pos := p.pos(f.Pos())
		x := newExec(p, Hooks{Opaque: func(g *ssa.Function) bool { return !inPkg(g, pkgIns) }})
		args := x.params(f)
		chain := args[chainParam(p, f)]
		n := 0
		x.run(f, args, func(fr *Frame, res *Term) {
			if !succeeded(x, f, res) {
				return
			}
			v := res
			if f.Signature.Results().Len() > 1 {
				v = x.extract(res, 0)
			}
			n++
			d := x.find(x.Field(x.find(v), F, di))
			r.ob("output", "made", c.isLastDoc(x, d, chain), pos, "the documentation of a functionality is not that of its instantiation")
		})
		r.done(x, p.fname(f))
		r.ob("output", "made some", n > 0, pos, "no functionality is made")
	}
	r.ob("output", "makers", len(makers) > 0, "-", "the function that makes the common attributes was not found")
	kinds := 0
	fs := insFuncs(p)
	for kind, f := range fs {
		pos := p.pos(f.Pos())
		x := newExec(p, Hooks{Opaque: func(g *ssa.Function) bool { return isMaker(g) || !writesFunc(p, g) }})
		args := x.params(f)
		chain := args[chainParam(p, f)]
		n := 0
		x.run(f, args, func(fr *Frame, res *Term) {
			if !succeeded(x, f, res) {
				return
			}
			v := res
			if f.Signature.Results().Len() > 1 {
				v = x.extract(res, 0)
			}
			v = x.find(peel(x.find(v)))
			T := p.named(pkgFn, structOf(kind))
			if T == nil {
				return
			}
			n++
			var d *Term
			j := fieldIndex(T, "Func")
			if j >= 0 {
				if v.op == OpAlloc || v.op == OpParam {
					d = x.find(x.load(x.FieldAddr(x.FieldAddr(v, T, j), F, di), types.Typ[types.String]))
				} else {
					d = x.find(x.Field(x.find(x.Field(v, T, j)), F, di))
				}
			}
			ok := d != nil && c.isLastDoc(x, d, chain)
			if d != nil && d.op == OpField && d.args[0].op == OpExtract && d.args[0].aux == "0" {
				cl := d.args[0].args[0]
				for _, m := range makers {
					if cl.op == OpCall && baseName(cl) == p.fname(m) && len(cl.args) > 0 && x.find(cl.args[chainParam(p, m)]) == chain {
						ok = true
					}
				}
			}
			r.ob("output", kind, ok, pos, "the documentation of a %s is not that of its instantiation", kind)
		})
		r.done(x, p.fname(f))
		r.ob("output", kind+" made", n > 0, pos, "no %s is made", kind)
		kinds++
	}
	r.floor("output", 2*kinds)
	// nobody else changes it
	for _, f := range p.funcs {
		if isMaker(f) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := st.Addr.(*ssa.FieldAddr)
				if !ok || !types.Identical(deref(fa.X.Type()), F) || fa.Field != di {
					continue
				}
				own := false
				for v := fa.X; v != nil; {
					switch u := v.(type) {
					case *ssa.FieldAddr:
						v = u.X
						continue
					case *ssa.Alloc:
						own = true
					}
					break
				}
				r.ob("output", "kept in "+p.fname(f), own, p.pos(st.Pos()), "the documentation of a functionality is changed afterwards")
			}
		}
	}
}

// writesFunc: the function writes the common attributes of functionalities, or
// hands out the functionality.
func writesFunc(p *Prog, f *ssa.Function) bool {
	for i := 0; i < f.Signature.Results().Len(); i++ {
		if isNamed(f.Signature.Results().At(i).Type(), pkgFn, "Func") {
			return true
		}
	}
	return p.effectsOf(f).writesField("fn.Func:Doc")
}

// isLastDoc: the documentation of the last of the chain.
func (c *docCheck) isLastDoc(x *Exec, d, chain *Term) bool {
	d = x.find(d)
	if d.op != OpCall || !strings.HasSuffix(baseName(d), ".Doc") || len(d.args) != 1 {
		return false
	}
	a := x.find(d.args[0])
	if a.op != OpLoad || a.args[0].op != OpIndexAddr || x.find(a.args[0].args[0]) != chain {
		return false
	}
	return x.samePoly(x.ts.Poly(a.args[0].args[1]), x.ts.Poly(x.length(chain)).add(polyConst(1), -1))
}

func checkDocs(p *Prog, r *Report) {
	c := &docCheck{p: p, r: r, doc: p.named(pkgAst, "Doc"), com: p.named(pkgTok, "Comment"), li: -1}
	if c.doc == nil || c.com == nil {
		r.missing("the type of documentation or of comment tokens")
		return
	}
	st, ok := c.doc.Underlying().(*types.Struct)
	for i := 0; ok && i < st.NumFields(); i++ {
		if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem(), c.com) {
			c.li = i
		}
	}
	if c.li < 0 {
		r.missing("the lines of documentation")
		return
	}
	docs, texts, singles := 0, 0, map[string]bool{}
	for _, f := range p.funcs {
		if len(f.Blocks) == 0 || f.Parent() != nil || f.Synthetic != "" || !inPkg(f, pkgAst) {
			continue
		}
		switch {
		case c.givesDoc(f):
			docs++
			c.block(f)
		case f.Signature.Recv() != nil && c.isDoc(deref(f.Signature.Recv().Type())):
			rs := f.Signature.Results()
			if rs.Len() == 1 && types.Identical(rs.At(0).Type(), types.Typ[types.String]) {
				texts++
				c.text(f)
			}
		case c.holds(f):
			c.walk(f)
		default:
			if n, list := c.givesNode(f); n != nil && !list && c.makesPart(f) {
				singles[n.Obj().Name()] = true
				c.single(f)
			}
		}
	}
	r.ob("block", "reader", docs > 0, "-", "the function that reads comments was not found")
	r.ob("text", "reader", texts > 0, "-", "the function that gives the text of documentation was not found")
	for _, k := range []string{"Const", "Inst", "Type"} {
		n := 0
		for _, o := range r.obs {
			if o.Rule == "attached" && strings.HasPrefix(o.Construct, k+" in ") {
				n++
			}
		}
		want := 2
		if k == "Const" {
			want = 3
		}
		r.ob("attached", k, n >= want, "-", "documentation of a %s is attached at %d places of %d", strings.ToLower(k), n, want)
	}
	m := &madeCheck{p: p, r: r}
	m.run()
	c.output()
	checkJSON(p, r, "Doc")
}

func init() { checks["C18"] = checkDocs }
