package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// groups: what is added to a wait group is what will be reported to it.
func (c *raceCheck) groups() {
	p, r := c.p, c.r
	// functions that start goroutines or that add
	spawned := map[*ssa.Function]bool{}
	for _, f := range c.code() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					switch v := g.Call.Value.(type) {
					case *ssa.Function:
						spawned[v] = true
					case *ssa.MakeClosure:
						spawned[v.Fn.(*ssa.Function)] = true
					}
				}
			}
		}
	}
	for _, f := range c.code() {
		for _, q := range f.Params {
			if isNamed(q.Type(), "sync", "WaitGroup") || isNamed(q.Type(), "sync", "Mutex") {
				r.bad("balance", p.fname(f)+" copy", p.pos(f.Pos()), "%s is given a copy of %s", p.fname(f), types.TypeString(q.Type(), nil))
			}
		}
		adds, outside := false, false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if op, wg := wgMethod(ci); op == "Add" {
						adds = true
						switch w := wgBase(wg).(type) {
						case *ssa.Parameter, *ssa.FreeVar:
							_ = w
							outside = true
						case *ssa.UnOp:
							_, outside = w.X.(*ssa.FreeVar)
						}
					}
				}
			}
		}
		if adds && outside && spawned[f] {
			r.bad("balance", p.fname(f)+" late", p.pos(f.Pos()), "a goroutine adds itself to the wait group, which may be waited on before")
			continue
		}
		units := c.unitsIn(f)
		if !adds && !units {
			continue
		}
		c.balance(f)
	}
}

// unitsIn tells whether f makes goroutines or calls that report to a wait group.
func (c *raceCheck) unitsIn(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if lo, hi, _ := c.unit(ci); lo > 0 || hi > 0 {
					if _, is := in.(*ssa.Go); is {
						return true
					}
					// a call: of interest when the wait group is our own
					_, _, wg := c.unit(ci)
					if _, own := wg.(*ssa.Alloc); own {
						return true
					}
				}
			}
		}
	}
	return false
}

// unit tells how often what is called or started reports to which wait group.
func (c *raceCheck) unit(ci ssa.CallInstruction) (lo, hi int, wg ssa.Value) {
	if op, v := wgMethod(ci); op == "Done" {
		if _, later := ci.(*ssa.Defer); later {
			return 0, 0, nil
		}
		return 1, 1, wgBase(v)
	}
	cc := ci.Common()
	var q *ssa.Function
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		q = mc.Fn.(*ssa.Function)
		for i, fv := range q.FreeVars {
			if l, h := c.doneCount(q, fv); h > 0 {
				b := mc.Bindings[i]
				if al, ok := b.(*ssa.Alloc); ok && !isWGAlloc(al) {
					for _, u := range *al.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == al {
							return l, h, wgBase(st.Val)
						}
					}
				}
				return l, h, b
			}
		}
	}
	q = cc.StaticCallee()
	if q == nil || !c.p.inRepo(q) {
		return 0, 0, nil
	}
	for i, a := range cc.Args {
		if isWG(a.Type()) && i < len(q.Params) {
			if l, h := c.doneCount(q, q.Params[i]); h > 0 {
				return l, h, wgBase(a)
			}
		}
	}
	return 0, 0, nil
}

// balance walks f and compares what is added with what is started.
func (c *raceCheck) balance(f *ssa.Function) {
	p, r := c.p, c.r
	where := p.fname(f)
	var x *Exec
	note := func(x *Exec, fr *Frame, in ssa.CallInstruction, args []*Term) {
		if fr.fn != f || x.quiet > 0 {
			return
		}
		if op, wg := wgMethod(in); op == "Add" && len(args) == 2 {
			x.event(Event{Kind: "wg", Name: wgBase(wg).Name(), Args: []*Term{args[1]}})
			return
		}
		lo, hi, wg := c.unit(in)
		if hi == 0 {
			return
		}
		if _, isPar := wg.(*ssa.Parameter); isPar && !addsTo(f, wg) {
			if _, is := in.(*ssa.Go); !is {
				return // reported for the caller
			}
		}
		r.ob("balance", where+" reports", lo == hi && hi == 1, p.pos(in.Pos()), "what is started may report to the wait group %d to %d times instead of once", lo, hi)
		x.event(Event{Kind: "wg", Name: wg.Name(), Args: []*Term{x.ts.Int(int64(-lo))}})
	}
	type lcSum struct {
		net map[string]*Poly
		bad bool
	}
	sums := map[*loopCtx]*lcSum{}
	total := func(x *Exec, from int) map[string]*Poly {
		out := map[string]*Poly{}
		for _, ev := range x.events[from:] {
			if ev.Kind != "wg" {
				continue
			}
			if out[ev.Name] == nil {
				out[ev.Name] = polyConst(0)
			}
			out[ev.Name] = out[ev.Name].add(x.substPoly(x.ts.Poly(x.find(ev.Args[0]))), 1)
		}
		return out
	}
	pos := p.pos(f.Pos())
	h := Hooks{
		Opaque: func(g *ssa.Function) bool { return g.Parent() != f },
		Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, g *ssa.Function, args []*Term) {
			note(x, fr, in, args)
		},
		Go: func(x *Exec, fr *Frame, in *ssa.Go, name string, args []*Term) { note(x, fr, in, args) },
		BackEdge: func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
			if x.quiet > 0 || fr.fn != f {
				return
			}
			net := total(x, lc.evMark)
			for n, v := range net {
				if x.samePoly(v, polyConst(0)) {
					net[n] = polyConst(0)
				}
			}
			o := sums[lc]
			if o == nil {
				sums[lc] = &lcSum{net: net}
				return
			}
			for n := range net {
				if o.net[n] == nil {
					o.net[n] = polyConst(0)
				}
			}
			for n, v := range o.net {
				w := net[n]
				if w == nil {
					w = polyConst(0)
				}
				if !x.samePoly(v, w) {
					o.bad = true
				}
			}
		},
		LoopExit: func(x *Exec, fr *Frame, lc *loopCtx) {
			o := sums[lc]
			if o == nil || fr.fn != f {
				return
			}
			for n, v := range o.net {
				if k, ok := v.konst(); ok && k == 0 && !o.bad {
					continue
				}
				t := x.ts.fresh(OpSym, "uneven", nil)
				if !o.bad {
					if k, ok := v.konst(); ok {
						var l *Poly
						switch {
						case lc.rng != nil && lc.rng.coll != nil:
							l = x.ts.Poly(x.length(lc.rng.coll))
						default:
							l = lc.kcur
							// left as soon as the counter is not below a length
							for c, v := range x.lits {
								if c.op == OpBin && c.aux == "<" && !v && x.samePoly(x.ts.Poly(c.args[0]), lc.kcur) && x.find(c.args[1]).op == OpLen {
									l = x.ts.Poly(x.find(c.args[1]))
								}
							}
						}
						t = x.ts.polyTerm(l.mul(polyConst(k)))
					}
				}
				x.event(Event{Kind: "wg", Name: n, Args: []*Term{t}})
			}
		},
	}
	x = newExec(p, h)
	x.run(f, x.params(f), func(fr *Frame, res *Term) {
		for n, v := range total(x, 0) {
			_ = n
			k, ok := x.substPoly(v).konst()
			r.ob("balance", where+" even", ok && k == 0 || x.samePoly(v, polyConst(0)), pos, "the wait group is given another number than is reported to it")
		}
	})
	r.ob("balance", where+" walked", true, "", "")
	r.done(x, where)
}

// ---- completeness

// parsesPackage tells whether g parses the files of the package it is given.
func (p *Prog) parsesPackage(g *ssa.Function) bool {
	if !inPkg(g, pkgPrs) || len(g.Blocks) == 0 || p.buildsFile(g) {
		return false
	}
	for _, q := range g.Params {
		if isPtrTo(q.Type(), pkgPrs, "Package") {
			for h := range p.reach(g) {
				if p.buildsFile(h) {
					return true
				}
			}
		}
	}
	return false
}

// buildsFile tells whether g makes a file of its syntax tree.
func (p *Prog) buildsFile(g *ssa.Function) bool {
	if !inPkg(g, pkgPrs) {
		return false
	}
	for _, h := range p.callees(g) {
		if inPkg(h, pkgAst) && h.Name() == "Build" {
			return true
		}
	}
	return false
}

func takesPackages(f *ssa.Function) int {
	for i, q := range f.Params {
		if isNamed(q.Type(), pkgPrs, "Packages") {
			return i
		}
	}
	return -1
}

// parseAll are the functions that parse all packages of a set.
func (p *Prog) parseAll() (out []*ssa.Function) {
	for _, f := range p.funcs {
		if inPkg(f, pkgPrs) && f.Parent() == nil && takesPackages(f) >= 0 && len(f.Blocks) > 0 && token.IsExported(f.Name()) && f.Signature.Recv() == nil && p.parsesReach(f) {
			out = append(out, f)
		}
	}
	return
}

func (p *Prog) parsesReach(f *ssa.Function) bool {
	e := newEffects()
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, h := range p.ownEffects(b, e) {
				if p.buildsFile(h) || visit(h) {
					return true
				}
			}
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, a := range ci.Common().Args {
						if mc, ok := a.(*ssa.MakeClosure); ok && visit(mc.Fn.(*ssa.Function)) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

func checkEveryPackage(p *Prog, r *Report) {
	n := 0
	for _, f := range p.parseAll() {
		n++
		var x *Exec
		var e eachTrack
		var pk *Term
		var wrap func(x *Exec, fr *Frame, g *ssa.Function, clo *Term, args []*Term)
		act := func(x *Exec, fr *Frame, g *ssa.Function, args []*Term) {
			for i, a := range args {
				if g.Signature.Recv() == nil && i < len(g.Params) && isPtrTo(g.Params[i].Type(), pkgPrs, "Package") {
					e.act(x, "parsed", x.find(a))
				}
			}
		}
		follow := func(g *ssa.Function) bool {
			return inPkg(g, pkgPrs) && !p.parsesPackage(g)
		}
		h := Hooks{
			Opaque: func(g *ssa.Function) bool { return !follow(g) || g.Parent() == nil && !p.parsesReach(g) },
			Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, g *ssa.Function, args []*Term) {
				if g != nil && p.parsesPackage(g) {
					act(x, fr, g, args)
				}
				if op, _ := wgMethod(in); op == "Go" && len(args) == 2 {
					wrap(x, fr, nil, x.find(args[1]), nil)
				}
			},
			Go: func(x *Exec, fr *Frame, in *ssa.Go, name string, args []*Term) {
				g := in.Call.StaticCallee()
				if g == nil {
					return
				}
				if p.parsesPackage(g) {
					act(x, fr, g, args)
					return
				}
				var clo *Term
				if mc, ok := in.Call.Value.(*ssa.MakeClosure); ok {
					clo = x.find(x.val(fr, mc))
				}
				wrap(x, fr, g, clo, args)
			},
		}
		// a goroutine that comes to the parser: on every path
		wrap = func(x *Exec, fr *Frame, g *ssa.Function, clo *Term, args []*Term) {
			if clo != nil {
				g = clo.fn
			}
			if g == nil || len(g.Blocks) == 0 || !p.inRepo(g) {
				return
			}
			var free []*Term
			if clo != nil && clo.op == OpClosure {
				free = clo.args
			}
			var common map[*Term]bool
			ends := 0
			m := x.mark()
			fr2 := x.newFrame(g, args, free, nil, nil)
			from := len(x.events)
			fr2.k = func(res *Term) {
				ends++
				now := map[*Term]bool{}
				for _, ev := range x.events[from:] {
					if ev.Kind == "act" && ev.Name == "parsed" {
						now[x.find(ev.Args[0])] = true
					}
				}
				if common == nil {
					common = now
					return
				}
				for t := range common {
					if !now[t] {
						delete(common, t)
					}
				}
			}
			x.enter(fr2)
			x.undo(m)
			for t := range common {
				e.act(x, "parsed", t)
			}
		}
		e.hook(&h)
		back := h.BackEdge
		h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
			if x.quiet == 0 {
				for ph, v := range next {
					if v := x.find(v); v.op == OpAppend && v.aux == "..." && x.find(v.args[0]) == x.find(lc.phi[ph]) {
						e.act(x, "joined", x.find(lc.phi[ph]), x.find(v.args[1]))
					}
				}
			}
			back(x, fr, lc, next)
		}
		x = newExec(p, h)
		args := x.params(f)
		pk = x.find(args[takesPackages(f)])
		ends := 0
		pos := p.pos(f.Pos())
		x.run(f, args, func(fr *Frame, res *Term) {
			ends++
			all := false
			for _, ev := range x.events {
				if ev.Kind == "each" && ev.Name == "parsed" && len(ev.over) == 1 && ev.times == 1 {
					// all packages in one list
					l := x.find(ev.over[0])
					el, ok := elementOf(ev.Args[0])
					for _, j := range x.events {
						if j.Kind == "each" && j.Name == "joined" && len(j.over) == 1 && j.times == 1 && x.find(j.over[0]) == pk && x.find(j.Args[0]) == l {
							from := x.find(j.Args[1])
							all = all || ok && x.find(el) == l && from.op == OpLookup && x.find(from.args[0]) == pk
						}
					}
				}
				if ev.Kind != "each" || ev.Name != "parsed" || len(ev.over) != 2 || ev.times != 1 || x.find(ev.over[1]) != pk {
					continue
				}
				l := ev.over[0]
				el, ok := elementOf(ev.Args[0])
				all = all || l.op == OpLookup && x.find(l.args[0]) == pk && ok && x.find(el) == x.find(l)
			}
			r.ob("packages", "all", all, pos, "some packages may not be parsed, or be parsed twice")
		})
		r.ob("packages", "ends", ends > 0, pos, "parsing packages never ends")
		r.done(x, p.fname(f))
	}
	r.ob("packages", "function", n > 0, "-", "the function that parses all packages was not found")
}

// checkEveryFile: every description file of a package directory is parsed.
func checkEveryFile(p *Prog, r *Report) {
	n := 0
	for _, f := range p.funcs {
		if !p.parsesPackage(f) || f.Parent() != nil {
			continue
		}
		// the outermost one
		inner := false
		for _, g := range p.funcs {
			if g != f && p.parsesPackage(g) && p.reach(g)[f] && !p.reach(f)[g] {
				inner = true
			}
		}
		if inner {
			continue
		}
		n++
		pos := p.pos(f.Pos())
		var pk *Term
		parsed := func(x *Exec, from int, match func(path *Term) bool) bool {
			for _, ev := range x.events[from:] {
				if ev.Kind == "act" && ev.Name == "file" && match(x.find(ev.Args[0])) {
					return true
				}
			}
			return false
		}
		act := func(x *Exec, g *ssa.Function, args []*Term) {
			if x.quiet > 0 {
				return
			}
			for i, a := range args {
				if i < len(g.Params) && isString(g.Params[i].Type()) {
					same := false
					for j, b := range args {
						same = same || isPtrTo(g.Params[j].Type(), pkgPrs, "Package") && x.find(b) == pk
					}
					r.ob("files", "own", same, pos, "a file is added to another package")
					x.event(Event{Kind: "act", Name: "file", Args: []*Term{x.find(a)}})
				}
			}
		}
		field := func(x *Exec, n string) *Term {
			return x.find(x.fieldByName(pk, p.named(pkgPrs, "Package"), n))
		}
		mentions := func(t *Term, is func(t *Term) bool) bool {
			return t.contains(is)
		}
		loops := 0
		var e eachTrack
		lists := map[*Term]bool{} // of paths to parse later
		h := Hooks{
			Opaque: func(g *ssa.Function) bool {
				return p.buildsFile(g) || !inPkg(g, pkgPrs) || !p.parsesReach(g) && (len(g.Blocks) > 12 || len(p.loopsOf(g)) > 0)
			},
			Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, g *ssa.Function, args []*Term) {
				if g != nil && p.buildsFile(g) {
					act(x, g, args)
				}
			},
			Go: func(x *Exec, fr *Frame, in *ssa.Go, name string, args []*Term) {
				if g := in.Call.StaticCallee(); g != nil && p.buildsFile(g) {
					act(x, g, args)
				}
			},
			BackEdge: func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
				if x.quiet > 0 {
					return
				}
				// the entry of the iteration
				var entry *Term
				isDir := func(list *Term) bool {
					list = x.find(list)
					if list.op == OpExtract && list.aux == "0" {
						list = list.args[0]
					}
					b := baseName(list)
					return list.op == OpCall && (b == "os.ReadDir" || b == "io/ioutil.ReadDir" || b == "path/filepath.Glob") && mentions(list, func(t *Term) bool { return x.find(t) == field(x, "Path") })
				}
				look := func(t *Term) {
					t.contains(func(t *Term) bool {
						if (t.op == OpIndexAddr || t.op == OpIndex) && x.find(t.args[1]) == lc.k && isDir(t.args[0]) {
							entry = t
						}
						return false
					})
				}
				for l := range x.lits {
					look(l)
				}
				for _, ev := range x.events[lc.evMark:] {
					for _, a := range ev.Args {
						look(a)
					}
				}
				if entry == nil {
					return
				}
				loops++
				call := func(t *Term, n string) bool {
					return t.op == OpCall && strings.HasSuffix(baseName(t), n) && t.contains(func(u *Term) bool { return u == entry })
				}
				its := func(path *Term) bool {
					return mentions(path, func(t *Term) bool { return call(t, "Name") }) && mentions(path, func(t *Term) bool { return x.find(t) == field(x, "Path") }) && onlyJoins(x, path)
				}
				ok := parsed(x, lc.evMark, its)
				for ph, v := range next {
					v := x.find(v)
					if v.op == OpAppend && v.aux == "" && len(v.args) == 2 && x.find(v.args[0]) == x.find(lc.phi[ph]) && its(x.find(v.args[1])) {
						ok = true
						lists[x.find(lc.phi[ph])] = true
					}
				}
				for l, v := range x.lits {
					if call(l, "IsDir") && v {
						ok = true
					}
					if l.op == OpCall && baseName(l) == "strings.HasSuffix" && !v && call(x.find(l.args[0]), "Name") && x.find(l.args[1]) == x.ts.Str(".fbd") {
						ok = true
					}
					if l.op == OpBin && l.aux == "==" && !v {
						for i := range l.args {
							if x.find(l.args[i]) == x.ts.Str(".fbd") {
								e := x.find(l.args[1-i])
								if e.op == OpCall && (baseName(e) == "path.Ext" || baseName(e) == "path/filepath.Ext") && call(x.find(e.args[0]), "Name") {
									ok = true
								}
							}
						}
					}
				}
				r.ob("files", "every", ok, pos, "some description file of a package may not be parsed")
			},
			LoopLeave: func(x *Exec, fr *Frame, lc *loopCtx, byHeader bool) {
				if x.quiet == 0 && !byHeader && loops > 0 {
					r.ob("files", "whole", fr.fn.Recover != nil && false, pos, "the loop over the files of a package may end early")
				}
			},
		}
		e.hook(&h)
		x := newExec(p, h)
		args := x.params(f)
		for i, q := range f.Params {
			if isPtrTo(q.Type(), pkgPrs, "Package") {
				pk = x.find(args[i])
			}
		}
		mains, libs := 0, 0
		x.run(f, args, func(fr *Frame, res *Term) {
			switch x.truth(x.ts.Bin(token.EQL, field(x, "Name"), x.ts.Str("main"), false)) {
			case yes:
				mains++
				r.ob("files", "main", parsed(x, 0, func(t *Term) bool { return t == field(x, "Path") }), pos, "the main file may not be parsed")
			case no:
				libs++
				dir := false
				for _, ev := range x.events {
					if ev.Kind == "call" && (ev.Name == "os.ReadDir" || ev.Name == "io/ioutil.ReadDir") && len(ev.Args) > 0 && x.find(ev.Args[0]) == field(x, "Path") {
						dir = true
					}
				}
				r.ob("files", "dir", dir, pos, "the directory of a package may not be read")
				for l := range lists {
					n := e.done(x, "file", func(list *Term, args []*Term, el *Term) bool {
						a := x.find(args[0])
						return x.find(list) == l && a.op == OpLoad && x.find(a.args[0]) == x.find(el)
					})
					r.ob("files", "later", n == 1 || x.provesLE0(x.ts.Poly(x.length(l))), pos, "files that were picked may not be parsed")
				}
			default:
				r.bad("files", "main", pos, "the main package is not told apart from others")
			}
		})
		r.ob("files", "cases", mains > 0 && libs > 0 && loops > 0, pos, "the main file or the directories of packages are not parsed")
		r.done(x, p.fname(f))
	}
	r.ob("files", "function", n > 0, "-", "the function that parses a package was not found")
}

// onlyJoins: a path is put together of its parts, and shortened only by the
// directory the program runs in.
func onlyJoins(x *Exec, t *Term) bool {
	t = x.find(t)
	switch t.op {
	case OpCall:
		switch baseName(t) {
		case "path.Join", "path/filepath.Join":
			return true
		case "strings.TrimPrefix":
			return onlyJoins(x, t.args[0])
		}
		return false
	case OpBin:
		return t.aux == "+"
	}
	return t.op == OpExtract || t.op == OpSym || t.op == OpAppend
}

// checkStages: packages are looked for, then parsed, then instantiated.
func checkStages(p *Prog, r *Report) {
	all := map[*ssa.Function]bool{}
	for _, f := range p.parseAll() {
		all[f] = true
	}
	instant := func(g *ssa.Function) bool {
		return g != nil && inPkg(g, "internal/ins") && token.IsExported(g.Name()) && takesPackages(g) >= 0 && g.Signature.Recv() == nil
	}
	finds := func(g *ssa.Function) bool {
		return g != nil && inPkg(g, pkgPrs) && g.Signature.Results().Len() > 0 && isNamed(g.Signature.Results().At(0).Type(), pkgPrs, "Packages") && g.Signature.Recv() == nil
	}
	n := 0
	for _, f := range p.funcs {
		uses := false
		for _, g := range p.callees(f) {
			uses = uses || instant(g)
		}
		if !uses || inPkg(f, "internal/ins") || f.Synthetic != "" {
			continue
		}
		n++
		where := p.fname(f)
		h := Hooks{
			Opaque: func(g *ssa.Function) bool { return pkgOf(g) != pkgOf(f) },
			Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, g *ssa.Function, args []*Term) {
				if x.quiet > 0 || g == nil {
					return
				}
				at := p.pos(in.Pos())
				switch {
				case all[g]:
					pk := x.find(args[takesPackages(g)])
					from := pk
					if from.op == OpExtract {
						from = from.args[0]
					}
					ok := false
					for _, ev := range x.events {
						ok = ok || ev.Kind == "found" && ev.Args[0] == from
						if ev.Kind == "all" && ev.Args[0] == pk {
							r.bad("stages", where+" once", at, "packages are parsed twice")
						}
					}
					r.ob("stages", where+" found", ok, at, "other packages are parsed than were found")
					x.event(Event{Kind: "all", Args: []*Term{pk}})
				case instant(g):
					pk := x.find(args[takesPackages(g)])
					ok := false
					for _, ev := range x.events {
						ok = ok || ev.Kind == "all" && ev.Args[0] == pk
					}
					r.ob("stages", where+" parsed", ok, at, "%s is called before the packages are parsed", p.fname(g))
				}
			},
			Ret: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, g *ssa.Function, args []*Term, res *Term) {
				if x.quiet == 0 && finds(g) {
					x.event(Event{Kind: "found", Args: []*Term{x.find(res)}})
				}
			},
		}
		x := newExec(p, h)
		x.run(f, x.params(f), func(fr *Frame, res *Term) {})
		r.done(x, where)
	}
	r.ob("stages", "functions", n >= 2, "-", "the program and the library do not both instantiate")
}
