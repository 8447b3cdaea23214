package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C16: which package an import refers to.

func checkImports16(p *Prog, r *Report) {
	(&madeCheck{p: p, r: r}).run()
	checkImportBuilder(p, r)
	checkMatching(p, r)
	checkBindImports(p, r)
	checkDiscover(p, r)
	r.floor("import", 3)
	r.floor("bind", 4)
	r.floor("match", 3)
}

// unquoted tells whether t is the text of the field of the node without its
// first and last byte.
func unquoted(x *Exec, t, node, src *Term, field string) bool {
	t = x.find(t)
	if t.op != OpSlice || len(t.args) < 3 {
		return false
	}
	s := x.find(t.args[0])
	return textOf(x, s, node, src, field) && x.same(t.args[1], x.ts.Int(1)) && x.samePoly(x.ts.Poly(t.args[2]), x.ts.Poly(x.length(s)).add(polyConst(1), -1))
}

// firstElement tells whether t is the part of the path before the first separator.
func firstElement(x *Exec, t, path *Term) bool {
	t = x.find(t)
	sep := x.ts.Str("/")
	call := func(t *Term, n string) []*Term {
		t = x.find(t)
		if t.op == OpCall && baseName(t) == n {
			return t.args
		}
		return nil
	}
	switch t.op {
	case OpLoad:
		if a := t.args[0]; a.op == OpIndexAddr && x.same(a.args[1], x.ts.Int(0)) {
			for _, n := range []string{"strings.Split", "strings.SplitN", "strings.SplitAfterN"} {
				if as := call(a.args[0], n); as != nil {
					return n != "strings.SplitAfterN" && x.find(as[0]) == path && x.find(as[1]) == sep && (len(as) < 3 || x.provesLE0(polyConst(1).add(x.ts.Poly(as[2]), -1)))
				}
			}
		}
	case OpExtract:
		if as := call(t.args[0], "strings.Cut"); as != nil && t.aux == "0" {
			return x.find(as[0]) == path && x.find(as[1]) == sep
		}
	}
	return false
}

// prefixFact tells whether the string is known to start with the prefix.
func prefixFact(x *Exec, s *Term, prefix string) tri {
	pt := x.ts.Str(prefix)
	for l, v := range x.lits {
		if l.op == OpCall && baseName(l) == "strings.HasPrefix" && x.find(l.args[0]) == s && x.find(l.args[1]) == pt {
			return triOf(v)
		}
		if l.op == OpBin && l.aux == "==" {
			for i := range l.args {
				if x.find(l.args[i]) == pt && headOf(x, x.find(l.args[1-i]), s, len(prefix)) {
					return triOf(v)
				}
			}
		}
	}
	for t := range x.rep {
		if x.find(t) == pt && headOf(x, t, s, len(prefix)) {
			return yes
		}
	}
	if x.provesLE0(x.ts.Poly(x.length(s)).add(polyConst(int64(len(prefix)-1)), -1)) {
		return no
	}
	return unknown
}

func headOf(x *Exec, t, s *Term, n int) bool {
	return t.op == OpSlice && x.find(t.args[0]) == s && (x.same(t.args[1], x.ts.Int(0)) || t.args[1].op == OpNil) && len(t.args) > 2 && x.same(t.args[2], x.ts.Int(int64(n)))
}

func checkImportBuilder(p *Prog, r *Report) {
	I := p.named(pkgPrs, "Import")
	set := p.builderSet()
	found := 0
	for _, f := range p.funcs {
		if !inPkg(f, pkgPrs) || f.Signature.Recv() != nil || f.Parent() != nil || len(f.Blocks) == 0 || f.Signature.Results().Len() == 0 || !takesNode(f) || !elemNamed(f.Signature.Results().At(0).Type(), pkgPrs, "Import") {
			continue
		}
		found++
		pos := p.pos(f.Pos())
		n := 0
		walkBuilder(p, r, f, set, func(w *buildWalk, h *Hooks) {
			w.each.shot = func(x *Exec, el *Term) *Term {
				if el.op != OpStruct || !types.Identical(el.typ, I) {
					return el
				}
				var node *Term
				path := structField(x, el, I, "Path")
				if path.op == OpSlice {
					node = nodeOfText(x, path.args[0], "Path")
				}
				ok := node != nil && unquoted(x, path, node, w.srcParam(), "Path")
				r.ob("import", "path", ok, pos, "the path of an import is not the one written: %s", short(path))
				if node == nil {
					return el
				}
				n++
				name := structField(x, el, I, "Name")
				nn := x.fieldByName(node, p.named(pkgAst, "Import"), "Name")
				switch x.truth(x.ts.Bin(token.EQL, nn, x.ts.Nil(), false)) {
				case no:
					r.ob("import", "name", textOf(x, name, node, w.srcParam(), "Name"), pos, "the name of an import is not the one written: %s", short(name))
				case yes:
					ok := false
					switch {
					case firstElement(x, name, path):
						// without the prefix
						ok = prefixFact(x, name, "fbd-") == no || x.provesLE0(x.ts.Poly(x.length(name)).add(polyConst(4), -1))
					case name.op == OpSlice && firstElement(x, name.args[0], path):
						s := x.find(name.args[0])
						ok = x.same(name.args[1], x.ts.Int(4)) && (len(name.args) < 3 || name.args[2].op == OpNil || x.samePoly(x.ts.Poly(name.args[2]), x.ts.Poly(x.length(s)))) && prefixFact(x, s, "fbd-") == yes
					case name.op == OpCall && baseName(name) == "strings.TrimPrefix":
						ok = firstElement(x, name.args[0], path) && x.find(name.args[1]) == x.ts.Str("fbd-")
					}
					r.ob("import", "implicit", ok, pos, "the implicit name of an import is %s", short(name))
				default:
					r.ob("import", "name", false, pos, "an import gets a name whether or not one is written")
				}
				pk := structField(x, el, I, "Pkg")
				r.ob("import", "unbound", pk != nil && pk.op == OpNil, pos, "an import refers to a package before it is bound")
				return node
			}
		}, func(w *buildWalk, res *Term) {
			x := w.x
			l := w.first(res)
			from, ev := w.each.collected(x, l, w.listType())
			nl, _ := w.nodeParam("Import")
			ok := ev != nil && x.find(from) == x.find(nl)
			if ok {
				e, is := elementOf(ev.Args[1])
				ok = is && x.find(e) == x.find(nl)
			}
			if nl != nil && x.provesLE0(x.ts.Poly(x.length(nl))) {
				ok = true
			}
			r.ob("import", "all", ok, pos, "some imports of a file may be left out")
		})
		r.ob("import", "made", n > 0, pos, "imports are never made")
	}
	r.ob("import", "builder", found > 0, "-", "the function that makes the imports of a file was not found")
}

// matcher tells whether f looks packages up by path.
func matcher(f *ssa.Function) bool {
	if !inPkg(f, pkgPrs) || f.Signature.Results().Len() != 1 || len(f.Blocks) == 0 {
		return false
	}
	s, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice)
	if !ok || !isPtrTo(s.Elem(), pkgPrs, "Package") {
		return false
	}
	has, str := false, false
	for _, q := range f.Params {
		has = has || isNamed(q.Type(), pkgPrs, "Packages")
		b, ok := q.Type().Underlying().(*types.Basic)
		str = str || ok && b.Kind() == types.String
	}
	return has && str
}

func checkMatching(p *Prog, r *Report) {
	found := 0
	for _, f := range p.funcs {
		if !matcher(f) || f.Synthetic != "" {
			continue
		}
		found++
		pos := p.pos(f.Pos())
		var x *Exec
		var e eachTrack
		var pk, path *Term
		P := p.named(pkgPrs, "Package")
		iter := 0
		h := Hooks{}
		e.hook(&h)
		back := h.BackEdge
		h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
			defer back(x, fr, lc, next)
			if x.quiet > 0 || lc.rng != nil && lc.rng.coll != nil {
				return
			}
			// the packages of one name
			var ls []*Term
			if lc.rng == nil {
				for l := range x.lits {
					l.contains(func(t *Term) bool {
						if t.op == OpIndexAddr && t.args[1] == lc.k {
							ls = append(ls, t)
						}
						return false
					})
				}
			}
			if len(ls) == 0 {
				return
			}
			el := x.find(x.load(ls[0], types.NewPointer(P)))
			matches := unknown
			pp := x.find(x.fieldByName(el, P, "Path"))
			for l, v := range x.lits {
				if l.op == OpCall && baseName(l) == "strings.HasSuffix" && x.find(l.args[0]) == pp && x.find(l.args[1]) == path {
					matches = triOf(v)
				}
				if l.op == OpBin && l.aux == "==" && (x.find(l.args[0]) == pp && x.find(l.args[1]) == path || x.find(l.args[1]) == pp && x.find(l.args[0]) == path) {
					matches = triOf(v)
				}
			}
			taken := 0
			for _, ev := range x.events[lc.evMark:] {
				if ev.Kind == "act" && ev.Name == "collect" && x.find(ev.Args[1]) == el {
					taken++
				}
			}
			for q, v := range next {
				v := x.find(v)
				if v.op == OpAppend && len(v.args) == 2 && x.find(v.args[0]) == x.find(lc.phi[q]) && x.find(v.args[1]) == el {
					taken++
				}
			}
			if matches == unknown {
				r.ob("match", "asked", false, pos, "a package is passed over without a look at its path")
				return
			}
			iter++
			r.ob("match", "taken", (matches == yes) == (taken == 1) && taken < 2, pos, "a package is taken %d times although its path matches: %v", taken, matches == yes)
			e.act(x, "looked", ls[0])
		}
		x = newExec(p, h)
		args := x.params(f)
		for i, q := range f.Params {
			if isNamed(q.Type(), pkgPrs, "Packages") {
				pk = x.find(args[i])
			} else {
				path = x.find(args[i])
			}
		}
		x.run(f, args, func(fr *Frame, res *Term) {
			all := false
			for _, ev := range x.events {
				if ev.Kind == "each" && ev.Name == "looked" && len(ev.over) == 2 && x.find(ev.over[1]) == pk && ev.over[0].op == OpLookup && x.find(ev.over[0].args[0]) == pk {
					all = true
				}
			}
			r.ob("match", "all", all, pos, "some packages are never matched")
		})
		r.ob("match", "iterations", iter > 0, pos, "packages are never looked at")
		r.done(x, p.fname(f))
	}
	r.ob("match", "function", found > 0, "-", "the function that finds packages by path was not found")
}

// checkBindImports: every import of every file of every package is bound.
func checkBindImports(p *Prog, r *Report) {
	I := p.named(pkgPrs, "Import")
	sets := func(f *ssa.Function) bool {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isNamed(mu.Value.Type(), pkgPrs, "Import") {
					return true
				}
			}
		}
		return false
	}
	found := 0
	for _, f := range p.funcs {
		if !inPkg(f, pkgPrs) || len(f.Blocks) == 0 || f.Parent() != nil || f.Signature.Results().Len() > 1 {
			continue
		}
		pi := -1
		for i, q := range f.Params {
			if isNamed(q.Type(), pkgPrs, "Packages") {
				pi = i
			}
		}
		if pi < 0 || len(f.Params) != 1 {
			continue
		}
		// the outermost function that only takes the packages
		comes := sets(f)
		gos := false
		for g := range p.reach(f) {
			comes = comes || sets(g)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Go); ok {
					gos = true
				}
			}
		}
		if !comes || gos {
			continue
		}
		found++
		pos := p.pos(f.Pos())
		var x *Exec
		var e eachTrack
		var pk *Term
		h := Hooks{
			Opaque: func(g *ssa.Function) bool { return matcher(g) || !inPkg(g, pkgPrs) },
			MapSet: func(x *Exec, fr *Frame, in ssa.Instruction, m, k, v *Term) {
				mu, ok := in.(*ssa.MapUpdate)
				if !ok || !isNamed(mu.Value.Type(), pkgPrs, "Import") {
					return
				}
				at := p.pos(in.Pos())
				v, m, k = x.find(v), x.find(m), x.find(k)
				b := structField(x, v, I, "Pkg")
				pth := structField(x, v, I, "Path")
				nm := structField(x, v, I, "Name")
				old := func(t *Term, f string) bool {
					if t.op != OpField || !strings.HasSuffix(t.aux, ":"+f) {
						return false
					}
					o := x.find(t.args[0])
					return o.op == OpLookup && x.find(o.args[0]) == m && x.find(o.args[1]) == k
				}
				r.ob("bind", "kept", old(pth, "Path") && old(nm, "Name"), at, "an import is bound under another name or path")
				ok = false
				var l *Term
				if b.op == OpLoad && b.args[0].op == OpIndexAddr && x.same(b.args[0].args[1], x.ts.Int(0)) {
					l = x.find(b.args[0].args[0])
				}
				if r.okob("bind", "matching", l != nil && l.op == OpCall && len(l.args) == 2, at, "an import is bound to %s", short(b)) {
					r.ob("bind", "path", x.find(l.args[0]) == pk && x.find(l.args[1]) == pth, at, "an import is bound to a package with another path: %s", short(l))
					r.ob("bind", "one", x.samePoly(x.ts.Poly(x.length(l)), polyConst(1)), at, "an import may be bound although several packages match")
				}
				_ = ok
				e.act(x, "bound", m, k)
			},
		}
		e.hook(&h)
		x = newExec(p, h)
		args := x.params(f)
		pk = x.find(args[pi])
		ends := 0
		x.run(f, args, func(fr *Frame, res *Term) {
			if f.Signature.Results().Len() == 1 && !succeeded(x, f, res) {
				return
			}
			ends++
			all := false
			for _, ev := range x.events {
				if ev.Kind != "each" || ev.Name != "bound" || len(ev.over) != 4 || ev.times != 1 || x.find(ev.over[3]) != pk {
					continue
				}
				field := func(t *Term, f string) *Term {
					if t.op == OpLoad && t.args[0].op == OpFieldAddr && strings.HasSuffix(t.args[0].aux, ":"+f) {
						return t.args[0].args[0]
					}
					return nil
				}
				file := field(ev.over[0], "Imports")
				pkg := field(ev.over[1], "Files")
				ok := file != nil && pkg != nil && file.op == OpLoad && file.args[0].op == OpIndexAddr && x.find(file.args[0].args[0]) == x.find(ev.over[1]) &&
					pkg.op == OpLoad && pkg.args[0].op == OpIndexAddr && x.find(pkg.args[0].args[0]) == x.find(ev.over[2]) &&
					ev.over[2].op == OpLookup && x.find(ev.over[2].args[0]) == pk
				all = all || ok
			}
			r.ob("bind", "all", all, pos, "some imports may be left unbound")
		})
		r.ob("bind", "ends", ends > 0, pos, "binding imports never succeeds")
		r.done(x, p.fname(f))
	}
	r.ob("bind", "function", found > 0, "-", "the function that binds imports was not found")
}

// checkDiscover: every directory is looked into at most once, so that no
// package is found twice.
func checkDiscover(p *Prog, r *Report) {
	n := 0
	for _, f := range p.funcs {
		if !inPkg(f, pkgPrs) || len(f.Blocks) == 0 {
			continue
		}
		rec := p.callsDirect(f, f)
		adds := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if mu, ok := in.(*ssa.MapUpdate); ok && isNamed(mu.Map.Type(), pkgPrs, "Packages") {
					adds = true
				}
			}
		}
		if !rec || !adds {
			continue
		}
		pos := p.pos(f.Pos())
		var marks *Term
		first := func(x *Exec) bool {
			for _, ev := range x.events {
				if ev.Kind != "mapset" {
					continue
				}
				m, k := x.find(ev.Args[0]), x.find(ev.Args[1])
				if m.op != OpParam {
					continue
				}
				for l, v := range x.lits {
					if l.op == OpLookupOk && !v && x.find(l.args[0]) == m && x.find(l.args[1]) == k {
						marks = m
						return true
					}
				}
			}
			return false
		}
		h := Hooks{
			Opaque: func(g *ssa.Function) bool { return g == f },
			Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term) {
				if callee == f {
					n++
					ok := first(x)
					same := false
					for i, a := range args {
						same = same || marks != nil && x.find(a) == marks && x.find(fr.args[i]) == marks
					}
					r.ob("discover", "once", ok && same, p.pos(in.Pos()), "a directory may be looked into again")
				}
			},
			MapSet: func(x *Exec, fr *Frame, in ssa.Instruction, m, k, v *Term) {
				if mu, ok := in.(*ssa.MapUpdate); ok && isNamed(mu.Map.Type(), pkgPrs, "Packages") {
					r.ob("discover", "added once", first(x), p.pos(in.Pos()), "a package may be added a second time")
				}
			},
		}
		x := newExec(p, h)
		x.run(f, x.params(f), func(fr *Frame, res *Term) {})
		r.done(x, p.fname(f))
		_ = pos
	}
	r.ob("discover", "function", n > 0, "-", "the function that looks for packages was not found")
}
