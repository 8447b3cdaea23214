package main

import (
	"go/token"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkPackageLevel: of every package, every instantiation of every file is
// told to be one that may be made at package level: of no other base type than
// bus, and of bus only in the main package.
func checkPackageLevel(p *Prog, r *Report) {
	n := 0
	for _, f := range p.funcs {
		if !p.parsesPackage(f) || f.Parent() != nil {
			continue
		}
		inner := false
		for _, g := range p.funcs {
			if g != f && p.parsesPackage(g) && p.reach(g)[f] && !p.reach(f)[g] {
				inner = true
			}
		}
		if inner {
			continue
		}
		n++
		pos := p.pos(f.Pos())
		var pk *Term
		var e eachTrack
		legal := func(x *Exec, inst *Term) bool {
			typ := x.find(x.fieldByName(inst, p.named(pkgPrs, "Inst"), "typ"))
			bus := x.truth(x.ts.Bin(token.EQL, typ, x.ts.Str("bus"), false))
			if bus == yes {
				name := x.find(x.fieldByName(pk, p.named(pkgPrs, "Package"), "Name"))
				return x.truth(x.ts.Bin(token.EQL, name, x.ts.Str("main"), false)) == yes
			}
			for l, v := range x.lits {
				if !v && l.op == OpCall && strings.HasSuffix(baseName(l), ".IsBaseType") && len(l.args) == 1 && x.find(l.args[0]) == typ {
					return true
				}
			}
			return false
		}
		h := Hooks{
			Opaque: func(g *ssa.Function) bool {
				return p.buildsFile(g) || !inPkg(g, pkgPrs)
			},
		}
		e.hook(&h)
		back := h.BackEdge
		h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
			if x.quiet == 0 {
				seen := map[*Term]bool{}
				for l := range x.lits {
					l.contains(func(t *Term) bool {
						if t.op == OpFieldAddr && t.args[0].op == OpLoad && t.aux == structName(p.named(pkgPrs, "Inst"))+":typ" && !seen[t.args[0]] {
							t = t.args[0]
							seen[t] = true
							if legal(x, t) {
								e.act(x, "legal", t)
							}
						}
						return false
					})
				}
			}
			back(x, fr, lc, next)
		}
		x := newExec(p, h)
		args := x.params(f)
		for i, q := range f.Params {
			if isPtrTo(q.Type(), pkgPrs, "Package") {
				pk = x.find(args[i])
			}
		}
		ends := 0
		x.run(f, args, func(fr *Frame, res *Term) {
			ends++
			files := x.find(x.fieldByName(pk, p.named(pkgPrs, "Package"), "Files"))
			ok := false
			for _, ev := range x.events {
				if ev.Kind != "each" || ev.Name != "legal" || len(ev.over) != 2 || x.find(ev.over[1]) != files {
					continue
				}
				el, is := elementOf(ev.Args[0])
				ok = ok || is && el == ev.over[0] && el.op == OpLoad
			}
			r.ob("package-level", p.fname(f), ok, pos, "an instantiation at package level may be accepted although a functionality of its type cannot be instantiated there")
		})
		r.ob("package-level", "ends", ends > 0, pos, "parsing a package never ends")
		r.done(x, p.fname(f))
	}
	r.ob("package-level", "function", n > 0, "-", "the function that parses a package was not found")
}
