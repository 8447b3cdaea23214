package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C17: which argument each parameter of a type gets.

func isExprMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isNamed(m.Elem(), pkgPrs, "Expr")
}

func isConstMap(t types.Type) bool {
	m, ok := t.Underlying().(*types.Map)
	return ok && isPtrTo(m.Elem(), pkgPrs, "Const")
}

// binds tells whether f is the method that binds arguments to a type.
func binds(f *ssa.Function) bool {
	if f == nil || !inPkg(f, pkgPrs) || f.Signature.Recv() == nil || f.Signature.Params().Len() != 1 || !isPtrTo(f.Signature.Recv().Type(), pkgPrs, "Type") || !isExprMap(f.Signature.Params().At(0).Type()) {
		return false
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if st, ok := in.(*ssa.Store); ok && isConstMap(st.Val.Type()) {
				return true
			}
			if mu, ok := in.(*ssa.MapUpdate); ok && isConstMap(mu.Map.Type()) {
				return true
			}
		}
	}
	return false
}

// setsResolved tells whether the call sets the resolved arguments of a
// functionality.
func setsResolved(ci ssa.CallInstruction) bool {
	cc := ci.Common()
	return cc.IsInvoke() && cc.Signature().Params().Len() == 1 && isExprMap(cc.Signature().Params().At(0).Type()) && cc.Signature().Results().Len() == 0
}

func baseName(t *Term) string {
	n := strings.FieldsFunc(t.aux, func(c rune) bool { return c == '@' || c == '#' })
	if len(n) == 0 {
		return ""
	}
	return n[0]
}

// isGet tells whether t is what the method of a functionality answered, and
// gives the functionality.
func (x *Exec) isGet(t *Term, method string) *Term {
	t = x.find(t)
	if t.op == OpCall && len(t.args) == 1 && strings.Contains(t.aux, "prs.") && strings.HasSuffix(baseName(t), "."+method) {
		o := x.find(t.args[0])
		if o.op == OpStruct {
			if a := placeOf(x, o); a != nil {
				o = x.find(a)
			}
		}
		return o
	}
	return nil
}

// bare strips the conversions of interface values.
func (x *Exec) bare(t *Term) *Term {
	t = x.find(t)
	for {
		switch {
		case t.op == OpIface || t.op == OpAssert:
			t = x.find(t.args[0])
		case t.op == OpExtract && t.aux == "0" && x.find(t.args[0]).op == OpAssert:
			t = x.find(x.find(t.args[0]).args[0])
		default:
			return t
		}
	}
}

func checkArgs17(p *Prog, r *Report) {
	(&madeCheck{p: p, r: r}).run()
	checkResolve(p, r)
	checkBinder(p, r)
	checkBindArgs(p, r)
	checkResolvedKept(p, r)
	checkResolvedFirst(p, r)
	checkListOrder(p, r, "parameters and arguments", [2]string{pkgPrs, "Param"}, [2]string{pkgPrs, "Arg"}, [2]string{pkgAst, "Param"}, [2]string{pkgAst, "Arg"})
	r.floor("made", 2)
	r.floor("bound", 4)
	r.floor("resolved", 4)
}

// elemField tells whether t is the field of an element of a list, and gives
// the list and the index.
func elemField(x *Exec, t *Term, field string) (list, idx *Term) {
	return elemFieldOf(x, x.find(t), field)
}

// elemFieldOf is elemField of the term itself.
func elemFieldOf(x *Exec, t *Term, field string) (list, idx *Term) {
	if t.op != OpLoad || t.args[0].op != OpFieldAddr || !strings.HasSuffix(t.args[0].aux, ":"+field) {
		return nil, nil
	}
	a := t.args[0].args[0]
	if a.op != OpIndexAddr {
		return nil, nil
	}
	return x.find(a.args[0]), x.find(a.args[1])
}

// checkResolve: the arguments resolved for a functionality.
func checkResolve(p *Prog, r *Report) {
	resolvers := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if !inPkg(f, "internal/ins") || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && setsResolved(ci) {
					resolvers[f] = true
				}
			}
		}
	}
	r.ob("resolved", "function", len(resolvers) > 0, "-", "the function that resolves arguments was not found")
	for f := range resolvers {
		// walk from the function that goes through the list of symbols
		top := f
		li := symListParam(top)
		for i := 0; i < 3 && li < 0; i++ {
			var up *ssa.Function
			for _, g := range p.funcs {
				if inPkg(g, "internal/ins") && p.callsDirect(g, top) && g != top {
					up = g
				}
			}
			if up == nil {
				break
			}
			top = up
			li = symListParam(top)
		}
		if li < 0 {
			r.ob("resolved", p.fname(f)+" over a list", false, p.pos(f.Pos()), "arguments are not resolved for lists of symbols")
			continue
		}
		walkResolve(p, r, top, li)
		walkResolveAll(p, r, top)
	}
}

func symListParam(f *ssa.Function) int {
	for i, q := range f.Params {
		if isSymbolList(q.Type()) {
			return i
		}
	}
	return -1
}

// callsDirect tells whether g has a static call of f.
func (p *Prog) callsDirect(g, f *ssa.Function) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
				return true
			}
		}
	}
	return false
}

func walkResolve(p *Prog, r *Report, top *ssa.Function, li int) {
	pos := p.pos(top.Pos())
	var x *Exec
	var e eachTrack
	var syms *Term
	setCount, given := 0, 0
	// the list arguments or parameters are read from
	argsOf := func(l *Term) *Term { return x.isGet(l, "Args") }
	paramsOf := func(l *Term) *Term {
		t := x.isGet(l, "Params")
		if t == nil {
			return nil
		}
		if t.op == OpExtract && t.aux == "0" {
			return askedFor(x, x.find(t.args[0]))
		}
		return nil
	}
	lacks := func(m, k *Term) bool {
		for l, v := range x.lits {
			if l.op == OpLookupOk && !v && x.find(l.args[0]) == m && x.find(l.args[1]) == k {
				return true
			}
		}
		return false
	}
	known := func(params, name *Term) bool {
		// some parameter has the name
		for l, v := range x.lits {
			if v && l.op == OpBin && l.aux == "==" {
				for i := range l.args {
					if x.find(l.args[1-i]) != name {
						continue
					}
					if pl, _ := elemField(x, l.args[i], "Name"); pl == params {
						return true
					}
				}
			}
		}
		for t := range x.rep {
			if x.find(t) == name {
				if pl, _ := elemFieldOf(x, t, "Name"); pl == params {
					return true
				}
			}
		}
		pl, _ := elemField(x, name, "Name")
		return pl == params
	}
	asked := map[string]map[*Term]bool{}
	index := map[*Term]bool{}
	answers := func(method string) (out []*Term) {
		for t := range asked[method] {
			out = append(out, t)
		}
		return
	}
	h := Hooks{
		Opaque: func(g *ssa.Function) bool { return g == top || !inPkg(g, "internal/ins") || instFunc(g) },
		Assumed: func(x *Exec, c *Term, v bool) {
			if c.op == OpLookupOk && v {
				if pl, i := elemField(x, c.args[1], "Name"); pl != nil {
					e.act(x, "param", x.find(c.args[0]), pl, x.ts.mk(OpIndexAddr, "", nil, pl, i))
				}
			}
		},
		MapSet: func(x *Exec, fr *Frame, in ssa.Instruction, m, k, v *Term) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isExprMap(mu.Map.Type()) {
				return
			}
			k, v = x.find(k), x.find(v)
			at := p.pos(in.Pos())
			setCount++
			if al, ai := elemField(x, v, "Value"); al != nil && argsOf(al) != nil {
				f := argsOf(al)
				given++
				nm := x.find(x.fieldByName(x.ts.mk(OpIndexAddr, "", nil, al, ai), p.named(pkgPrs, "Arg"), "Name"))
				positional := x.same(nm, x.ts.Str("")) || x.truth(x.ts.Bin(token.EQL, nm, x.ts.Str(""), false)) == yes
				if positional {
					pl, pi := elemField(x, k, "Name")
					ok := pl != nil && paramsOf(pl) == f && pi == ai
					r.ob("resolved", "positional", ok, at, "a positional argument is given to %s", short(k))
					if ok {
						n := x.ts.Poly(ai).add(polyConst(1), 1).add(x.ts.Poly(x.length(pl)), -1)
						r.ob("resolved", "too many", x.provesLE0(n) || x.provesLE0(x.ts.Poly(ai).add(polyConst(1), 1).add(x.ts.Poly(x.length(al)), -1)) && x.provesLE0(x.ts.Poly(x.length(al)).add(x.ts.Poly(x.length(pl)), -1)), at, "there may be more arguments than parameters")
					}
				} else {
					r.ob("resolved", "keyword", k == nm && x.truth(x.ts.Bin(token.EQL, nm, x.ts.Str(""), false)) == no, at, "a keyword argument is given to %s", short(k))
					// the parameters of the type
					ok := false
					for _, t := range answers("Params") {
						if paramsOf(t) == f && known(t, k) {
							ok = true
						}
					}
					r.ob("resolved", "unknown keyword", ok, at, "an argument may be given to a parameter the type does not have")
				}
				r.ob("resolved", "repeated", lacks(x.find(m), k), at, "an argument may replace another one of the same parameter")
				e.act(x, "arg", x.find(m), al, x.ts.mk(OpIndexAddr, "", nil, al, ai))
				if pl, pi := elemField(x, k, "Name"); pl != nil {
					e.act(x, "param", x.find(m), pl, x.ts.mk(OpIndexAddr, "", nil, pl, pi))
				}
				return
			}
			if pl, pi := elemField(x, v, "DfltValue"); pl != nil {
				kl, ki := elemField(x, k, "Name")
				r.ob("resolved", "default", paramsOf(pl) != nil && kl == pl && ki == pi, at, "a default is given to another parameter: %s", short(k))
				r.ob("resolved", "given first", lacks(x.find(m), k), at, "a default may replace an argument")
				r.ob("resolved", "missing", x.truth(x.ts.Bin(token.EQL, v, x.ts.Nil(), false)) == no, at, "a parameter may be left without a value")
				e.act(x, "param", x.find(m), pl, x.ts.mk(OpIndexAddr, "", nil, pl, pi))
				return
			}
			r.ob("resolved", "value", false, at, "a parameter is given %s", short(v))
		},
	}
	h.Result = func(x *Exec, in ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term) {
		if res == nil || res.op != OpCall {
			return
		}
		n := baseName(res)
		n = n[strings.LastIndex(n, ".")+1:]
		if asked[n] == nil {
			asked[n] = map[*Term]bool{}
		}
		asked[n][res] = true
	}
	h.Load = func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
		if addr.op == OpIndexAddr && x.find(addr.args[0]) == syms {
			index[addr.args[1]] = true
		}
	}
	h.Call = func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term) {
		if callee == top {
			// what is inside
			l := x.find(args[li])
			if f := x.isGet(l, "Symbols"); f != nil {
				e.act(x, "inside", x.bare(f))
			}
			return
		}
		if !setsResolved(in) {
			return
		}
		f, m := x.find(args[0]), x.find(args[1])
		at := p.pos(in.Pos())
		x.event(Event{Kind: "resolved", Args: []*Term{x.bare(f)}})
		allArgs, allParams := false, false
		al := 0
		for _, ev := range x.events {
			if ev.Kind != "each" || len(ev.over) != 1 || x.find(ev.Args[0]) != m {
				continue
			}
			l := x.find(ev.Args[1])
			if x.find(ev.over[0]) != l || ev.Args[2] != e.element(x, ev.over[0], 0) || ev.times != 1 {
				continue
			}
			if ev.Name == "arg" && argsOf(l) == f {
				allArgs = true
				al++
			}
			if ev.Name == "param" && paramsOf(l) == f {
				allParams = true
			}
		}
		for _, t := range answers("Args") {
			if argsOf(t) == f && x.provesLE0(x.ts.Poly(x.length(t))) {
				allArgs = true
			}
		}
		for _, t := range answers("Params") {
			if paramsOf(t) == f && x.provesLE0(x.ts.Poly(x.length(t))) {
				allParams, allArgs = true, true
			}
		}
		r.ob("resolved", "all arguments", allArgs, at, "an argument may be dropped")
		r.ob("resolved", "all parameters", allParams, at, "a parameter may be left without a value")
	}
	e.hook(&h)
	back := h.BackEdge
	h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
		defer back(x, fr, lc, next)
		if x.quiet > 0 {
			return
		}
		// an iteration over the symbols
		if !index[lc.k] {
			return
		}
		el := x.find(x.loadElem(syms, lc.k, top.Params[li].Type().Underlying().(*types.Slice).Elem()))
		skip, based, empty := false, false, false
		for l, v := range x.lits {
			if l.op == OpAssertOk && !v && x.bare(l.args[0]) == x.bare(el) && isNamed(l.typ, pkgPrs, "Functionality") {
				skip = true
			}
			if l.op == OpCall && v && strings.HasSuffix(baseName(l), ".IsBaseType") && len(l.args) == 1 {
				if f := x.isGet(l.args[0], "Type"); f != nil && x.bare(f) == x.bare(el) {
					based = true
				}
			}
		}
		for _, t := range answers("Symbols") {
			if f := x.isGet(t, "Symbols"); f != nil && x.bare(f) == x.bare(el) && x.provesLE0(x.ts.Poly(x.length(t))) {
				empty = true
			}
		}
		res, ins := false, false
		for _, ev := range x.events[lc.evMark:] {
			if ev.Kind == "resolved" && ev.Args[0] == x.bare(el) {
				res = true
			}
			if ev.Kind == "act" && ev.Name == "inside" && ev.Args[0] == x.bare(el) {
				ins = true
			}
		}
		r.ob("resolved", "every functionality", skip || based || res, pos, "the arguments of a functionality may not be resolved")
		r.ob("resolved", "nested", skip || empty || ins, pos, "the arguments of what is inside a functionality may not be resolved")
		e.act(x, "seen", el)
	}
	x = newExec(p, h)
	args := x.params(top)
	syms = x.find(args[li])
	x.run(top, args, func(fr *Frame, res *Term) {
		if !succeeded(x, top, res) {
			return
		}
		all := x.provesLE0(x.ts.Poly(x.length(syms)))
		for _, ev := range x.events {
			if ev.Kind == "each" && ev.Name == "seen" && len(ev.over) == 1 && x.find(ev.over[0]) == syms {
				all = true
			}
		}
		r.ob("resolved", "every symbol", all, pos, "some symbols are left out")
	})
	r.ob("resolved", "values", setCount > 1 && given > 0, pos, "arguments are never given to parameters")
	r.done(x, p.fname(top))
}

// walkResolveAll: the lists of all packages are resolved, before anything is
// instantiated.
func walkResolveAll(p *Prog, r *Report, top *ssa.Function) {
	n := 0
	for _, f := range p.funcs {
		if !inPkg(f, "internal/ins") || f == top || !p.callsDirect(f, top) {
			continue
		}
		n++
		pos := p.pos(f.Pos())
		var x *Exec
		var e eachTrack
		h := Hooks{
			Opaque: func(g *ssa.Function) bool { return g == top || !inPkg(g, "internal/ins") || instFunc(g) },
			Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term) {
				if callee == top {
					e.act(x, "list", x.find(args[symListParam(top)]))
				}
			},
		}
		e.hook(&h)
		x = newExec(p, h)
		args := x.params(f)
		var pk *Term
		for i, q := range f.Params {
			if isNamed(q.Type(), pkgPrs, "Packages") {
				pk = x.find(args[i])
			}
		}
		if pk == nil {
			r.ob("resolved", "packages", false, pos, "%s does not go through the packages", f.Name())
			continue
		}
		ok := 0
		x.run(f, args, func(fr *Frame, res *Term) {
			if !succeeded(x, f, res) {
				return
			}
			all := false
			for _, ev := range x.events {
				if ev.Kind == "each" && ev.Name == "list" && len(ev.over) == 2 && ev.times == 1 && x.find(ev.over[1]) == pk {
					l := ev.over[0]
					all = all || l.op == OpLookup && x.find(l.args[0]) == pk
				}
			}
			ok++
			r.ob("resolved", "packages", all, pos, "the symbols of some packages are left out")
		})
		r.ob("resolved", "packages end", ok > 0, pos, "%s never succeeds", f.Name())
		r.done(x, p.fname(f))
	}
	r.ob("resolved", "called", n > 0, "-", "%s is never called", top.Name())
}

// checkBinder: before the types of a chain are gone through, every one of them
// is bound to the arguments of its successor.
func checkBinder(p *Prog, r *Report) {
	binders := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if !inPkg(f, "internal/ins") || f.Parent() != nil || len(f.Blocks) == 0 {
			continue
		}
		ci := chainIdx(f)
		if ci < 0 {
			continue
		}
		calls := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && binds(c.Common().StaticCallee()) {
					calls = true
				}
			}
		}
		if !calls {
			continue
		}
		binders[f] = true
		pos := p.pos(f.Pos())
		var x *Exec
		var chain *Term
		index := map[*Term]bool{}
		et := f.Params[ci].Type().Underlying().(*types.Slice).Elem()
		good := map[*loopCtx]int{}
		h := Hooks{
			Opaque: func(g *ssa.Function) bool { return binds(g) || !inPkg(g, "internal/ins") || instFunc(g) },
			Load: func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
				if addr.op == OpIndexAddr && x.find(addr.args[0]) == chain {
					index[addr.args[1]] = true
				}
			},
			Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term) {
				if !binds(callee) {
					return
				}
				t := x.bare(args[0])
				g := x.isGet(args[1], "ResolvedArgs")
				ok := false
				if t.op == OpLoad && t.args[0].op == OpIndexAddr && x.find(t.args[0].args[0]) == chain && g != nil {
					next := x.bare(x.loadElem(chain, x.ts.polyTerm(x.ts.Poly(t.args[0].args[1]).add(polyConst(1), 1)), et))
					ok = x.bare(g) == next
				}
				r.ob("bound", "successor", ok, p.pos(in.Pos()), "a type is not given the arguments of its successor in the chain: %s", short(args[1]))
				x.event(Event{Kind: "bound", Args: []*Term{t}})
			},
			BackEdge: func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
				if x.quiet > 0 || !index[lc.k] {
					return
				}
				el := x.bare(x.loadElem(chain, lc.k, et))
				ok := false
				for _, ev := range x.events[lc.evMark:] {
					ok = ok || ev.Kind == "bound" && ev.Args[0] == el
				}
				for l, v := range x.lits {
					if l.op == OpAssertOk && !v && x.bare(l.args[0]) == el && isPtrTo(l.typ, pkgPrs, "Type") {
						ok = true
					}
				}
				r.ob("bound", "each", ok, pos, "a type of the chain may be left without its arguments")
				if ok {
					good[lc]++
				}
			},
			LoopExit: func(x *Exec, fr *Frame, lc *loopCtx) {
				if good[lc] > 0 && x.provesLE0(x.ts.Poly(x.length(chain)).add(polyConst(1), -1).add(lc.kcur, -1)) {
					x.event(Event{Kind: "all"})
				}
			},
		}
		x = newExec(p, h)
		args := x.params(f)
		chain = x.find(args[ci])
		x.run(f, args, func(fr *Frame, res *Term) {
			ok := false
			for _, ev := range x.events {
				ok = ok || ev.Kind == "all"
			}
			r.ob("bound", "all", ok, pos, "some types of the chain are left without their arguments")
		})
		r.done(x, p.fname(f))
	}
	r.ob("bound", "function", len(binders) > 0, "-", "the function that binds arguments to the types of a chain was not found")
	// Nothing of a type of a chain is read before.
	n := 0
	for _, f := range p.funcs {
		if !inPkg(f, "internal/ins") || len(f.Blocks) == 0 || binders[f] || f.Parent() != nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || !c.Common().IsInvoke() || !isNamed(c.Common().Value.Type(), pkgPrs, "Functionality") {
					continue
				}
				m := c.Common().Method.Name()
				if m != "Props" && m != "Symbols" {
					continue
				}
				n++
				ok = p.boundValue(c.Common().Value, in, binders, map[ssa.Value]bool{})
				r.ob("bound", "before "+p.fname(f)+" "+m, ok, p.pos(in.Pos()), "%s of a type are read before arguments are bound", m)
			}
		}
	}
	r.ob("bound", "reads", n >= 10, "-", "only %d places read what is in a type", n)
}

func chainIdx(f *ssa.Function) int {
	for i, q := range f.Params {
		if isChain(q.Type()) {
			return i
		}
	}
	return -1
}

// boundValue tells whether a functionality comes from a chain that was bound
// before, or is no element of a chain.
func (p *Prog) boundValue(v ssa.Value, at ssa.Instruction, binders map[*ssa.Function]bool, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Extract:
		return p.boundValue(v.Tuple, at, binders, seen)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !p.boundValue(e, at, binders, seen) {
				return false
			}
		}
		return true
	case *ssa.Call:
		return true // the iterator; what it gives has been bound when it was made
	case *ssa.TypeAssert:
		return p.boundValue(v.X, at, binders, seen)
	case *ssa.ChangeInterface:
		return p.boundValue(v.X, at, binders, seen)
	case *ssa.MakeInterface:
		return p.boundValue(v.X, at, binders, seen)
	case *ssa.Parameter:
		f := v.Parent()
		idx := -1
		for i, q := range f.Params {
			if q == v {
				idx = i
			}
		}
		for _, g := range p.funcs {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == f {
						if !p.boundValue(c.Common().Args[idx], in, binders, seen) {
							return false
						}
					}
				}
			}
		}
		return true
	case *ssa.UnOp:
		ia, ok := v.X.(*ssa.IndexAddr)
		if !ok || !isChain(ia.X.Type()) {
			return true
		}
		// an element of the chain: bound before?
		for _, b := range v.Parent().Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(*ssa.Call)
				if !ok || c.Common().StaticCallee() == nil || !binders[c.Common().StaticCallee()] {
					continue
				}
				i := chainIdx(c.Common().StaticCallee())
				if c.Common().Args[i] == ia.X && before(in, at) {
					return true
				}
			}
		}
		return false
	}
	return true
}

// before tells whether every path to b passes a.
func before(a, b ssa.Instruction) bool {
	if a.Parent() != b.Parent() {
		return false
	}
	if a.Block() == b.Block() {
		for _, in := range a.Block().Instrs {
			if in == a {
				return true
			}
			if in == b {
				return false
			}
		}
	}
	return a.Block().Dominates(b.Block())
}

// checkBindArgs: binding gives the type a new set of constants, one for each
// argument.
func checkBindArgs(p *Prog, r *Report) {
	n := 0
	for _, f := range p.funcs {
		if !binds(f) || f.Synthetic != "" {
			continue
		}
		n++
		pos := p.pos(f.Pos())
		var x *Exec
		var e eachTrack
		C := p.named(pkgPrs, "Const")
		h := Hooks{
			MapSet: func(x *Exec, fr *Frame, in ssa.Instruction, m, k, v *Term) {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isConstMap(mu.Map.Type()) {
					return
				}
				e.act(x, "bound", x.find(m), x.find(k), x.find(x.fieldByName(x.find(v), C, "Value")))
			},
		}
		e.hook(&h)
		x = newExec(p, h)
		args := x.params(f)
		T := deref(f.Params[0].Type())
		x.run(f, args, func(fr *Frame, res *Term) {
			st := T.Underlying().(*types.Struct)
			for i := 0; i < st.NumFields(); i++ {
				if !isConstMap(st.Field(i).Type()) {
					continue
				}
				m := x.find(x.load(x.FieldAddr(args[0], T, i), st.Field(i).Type()))
				if !r.okob("bound", "fresh", m.op == OpMap, pos, "constants of an earlier binding are kept: %s", short(m)) {
					continue
				}
				all := false
				for _, ev := range x.events {
					if ev.Kind != "each" || ev.Name != "bound" || len(ev.over) != 1 || ev.times != 1 || ev.Args[0] != m || x.find(ev.over[0]) != x.find(args[1]) {
						continue
					}
					k := x.ts.mk(OpParam, "κ0", nil)
					all = ev.Args[1] == k && ev.Args[2].op == OpLookup && x.find(ev.Args[2].args[0]) == x.find(ev.over[0]) && ev.Args[2].args[1] == k
				}
				r.ob("bound", "every argument", all, pos, "not every argument is bound to the parameter of its name")
			}
		})
		r.done(x, p.fname(f))
	}
	r.ob("bound", "method", n > 0, "-", "the method that binds arguments to a type was not found")
}

func (r *Report) okob(rule, construct string, ok bool, pos, format string, a ...any) bool {
	r.ob(rule, construct, ok, pos, format, a...)
	return ok
}

// checkResolvedKept: resolved arguments are what was set, and what a type or an
// instance answers about its arguments and parameters is what was read.
func checkResolvedKept(p *Prog, r *Report) {
	for _, kind := range []string{"Inst", "Type"} {
		n := p.named(pkgPrs, kind)
		var set, get *ssa.Function
		ms := p.ssa.MethodSets.MethodSet(types.NewPointer(n))
		for i := 0; i < ms.Len(); i++ {
			s, ok := ms.At(i).Type().(*types.Signature)
			if !ok {
				continue
			}
			if s.Params().Len() == 1 && s.Results().Len() == 0 && isExprMap(s.Params().At(0).Type()) && !binds(p.ssa.MethodValue(ms.At(i))) {
				set = p.ssa.MethodValue(ms.At(i))
			}
			if s.Params().Len() == 0 && s.Results().Len() == 1 && isExprMap(s.Results().At(0).Type()) {
				get = p.ssa.MethodValue(ms.At(i))
			}
		}
		if set == nil || get == nil {
			r.ob("kept", kind, false, "-", "the methods that set and get resolved arguments were not found")
			continue
		}
		x := newExec(p, Hooks{})
		args := x.params(set)
		x.run(set, args, func(fr *Frame, res *Term) {
			v := x.value(get, args[0])
			r.ob("kept", kind, v != nil && x.find(v) == x.find(args[1]), p.pos(set.Pos()), "the resolved arguments of a %s are not the ones that were set", strings.ToLower(kind))
		})
		r.done(x, p.fname(set))
	}
}

// checkResolvedFirst: arguments are resolved before anything is instantiated.
func checkResolvedFirst(p *Prog, r *Report) {
	resolves := func(g *ssa.Function) bool {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && setsResolved(ci) {
					return true
				}
			}
		}
		return false
	}
	p.firstDone(r, "resolved", "first", resolves, "before arguments are resolved")
}

// firstDone: in every exported function of the instantiation, what comes to
// an instantiation comes after a call that comes to a function of the kind.
func (p *Prog) firstDone(r *Report, rule, construct string, kind func(g *ssa.Function) bool, msg string) {
	memo := map[*ssa.Function][2]int{}
	does := func(g *ssa.Function, i int, is func(g *ssa.Function) bool) bool {
		m := memo[g]
		if m[i] == 0 {
			m[i] = 1
			if is(g) {
				m[i] = 2
			}
			for h := range p.reach(g) {
				if is(h) {
					m[i] = 2
				}
			}
			memo[g] = m
		}
		return m[i] == 2
	}
	n := 0
	for _, f := range p.funcs {
		if !inPkg(f, "internal/ins") || f.Parent() != nil || !token.IsExported(f.Name()) || f.Signature.Recv() != nil {
			continue
		}
		var firsts []ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Common().StaticCallee() != nil && does(c.Common().StaticCallee(), 0, kind) {
					firsts = append(firsts, in)
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok || c.Common().StaticCallee() == nil || !does(c.Common().StaticCallee(), 1, instFunc) {
					continue
				}
				n++
				ok = false
				for _, a := range firsts {
					ok = ok || a != in && before(a, in)
				}
				r.ob(rule, construct, ok, p.pos(in.Pos()), "%s instantiates %s", f.Name(), msg)
			}
		}
	}
	r.ob(rule, construct+" found", n > 0, "-", "no exported function instantiates anything")
}
