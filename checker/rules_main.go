package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The function that instantiates a design: which of the results is the main
// bus (C15).

// instFunc is the function that makes a functionality of a symbol, whatever
// its base type.
func instFunc(f *ssa.Function) bool {
	return inPkg(f, "internal/ins") && f.Parent() == nil && f.Signature.Recv() == nil && f.Signature.Results().Len() >= 1 && isNamed(f.Signature.Results().At(0).Type(), pkgFn, "Functionality") &&
		f.Signature.Params().Len() >= 1 && (isNamed(f.Signature.Params().At(0).Type(), pkgPrs, "Functionality") || isNamed(f.Signature.Params().At(0).Type(), pkgPrs, "Symbol"))
}

// givesFn tells whether a call of g may give a functionality.
func givesFn(g *ssa.Function) bool {
	if g.Parent() != nil {
		return true
	}
	is := func(t types.Type) bool { return isNamed(t, pkgFn, "Functionality") || isPtrTo(t, pkgFn, "Block") }
	for i := 0; i < g.Signature.Results().Len(); i++ {
		if is(g.Signature.Results().At(i).Type()) {
			return true
		}
		// a predicate, or the lookup of a symbol
		if b, ok := g.Signature.Results().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool && g.Signature.Recv() == nil {
			return true
		}
	}
	for i := 0; i < g.Signature.Params().Len(); i++ {
		t := g.Signature.Params().At(i).Type()
		if pt, ok := t.(*types.Pointer); ok && is(pt.Elem()) {
			return true
		}
	}
	return false
}

func checkMainBus(p *Prog, r *Report) {
	found := 0
	makers := map[string]bool{}
	for _, f := range p.funcs {
		if instFunc(f) {
			makers[p.fname(f)] = true
		}
	}
	for _, f := range p.funcs {
		if !inPkg(f, "internal/ins") || len(f.Blocks) == 0 || f.Parent() != nil || !token.IsExported(f.Name()) {
			continue
		}
		res := f.Signature.Results()
		if res.Len() < 2 || !isPtrTo(res.At(0).Type(), pkgFn, "Block") || !isError(res.At(res.Len()-1).Type()) {
			continue
		}
		found++
		pos := p.pos(f.Pos())
		taken := 0
		var nm *Term
		// isMain: the value is what the main instance was made into.
		isMain := func(x *Exec, v *Term) {
			v = x.find(peel(x.find(v)))
			for v.op == OpAssert {
				v = x.find(v.args[0])
			}
			if v.op == OpExtract && v.args[0].op == OpAssert {
				v = x.find(v.args[0].args[0])
			}
			for v.op == OpExtract || v.op == OpAssert {
				v = x.find(v.args[0])
			}
			if v.op == OpNil || strings.Contains(v.aux, "@loop") {
				return
			}
			taken++
			ok := v.op == OpCall && makers[strings.FieldsFunc(v.aux, func(c rune) bool { return c == '@' || c == '#' })[0]]
			r.ob("main", "made", ok, pos, "the main bus is %s, not what was made of a symbol", short(v))
			if !ok {
				return
			}
			sym := x.find(v.args[0])
			root := sym
			for root.op == OpAssert || root.op == OpIface || root.op == OpExtract {
				root = x.find(root.args[0])
			}
			// of the main package, of the wanted name, an instantiation
			name, inst := false, false
			strip := func(t *Term) *Term {
				t = x.find(t)
				for t.op == OpAssert || t.op == OpIface || t.op == OpExtract {
					t = x.find(t.args[0])
				}
				return t
			}
			for l, v := range x.lits {
				if !v {
					continue
				}
				if l.op == OpAssertOk && isPtrTo(l.typ, pkgPrs, "Inst") && strip(l.args[0]) == root {
					inst = true
				}
				if l.op == OpBin && l.aux == "==" {
					for i := range l.args {
						a, b := x.find(l.args[i]), x.find(l.args[1-i])
						if b == nm && a.op == OpCall && strings.HasSuffix(strings.SplitN(a.aux, "@", 2)[0], ".Name") && strip(a.args[0]) == root {
							name = true
						}
					}
				}
			}
			if dt := x.dynType(sym); dt != nil && isPtrTo(dt, pkgPrs, "Inst") {
				inst = true
			}
			isName := func(a *Term) bool {
				return a.op == OpCall && len(a.args) == 1 && x.find(a) == x.find(nm) && strings.HasSuffix(strings.SplitN(a.aux, "@", 2)[0], ".Name") && strip(a.args[0]) == root
			}
			name = name || isName(x.find(nm))
			for a := range x.rep {
				name = name || isName(a)
			}
			r.ob("main", "name", name, pos, "the main bus may be made of a symbol of another name: %s", short(sym))
			r.ob("main", "instance", inst, pos, "the main bus may be made of a symbol that is not an instantiation: %s", short(sym))
			// the package it comes from
			inMain := false
			sym.contains(func(t *Term) bool {
				if t.op == OpLookup && t.args[0].op == OpParam {
					if x.same(t.args[1], x.ts.Str("main")) || x.truth(x.ts.Bin(token.EQL, t.args[1], x.ts.Str("main"), false)) == yes {
						inMain = true
					}
				}
				return false
			})
			r.ob("main", "package", inMain, pos, "the main bus may be made of a symbol of another package: %s", short(sym))
		}
		h := Hooks{
			Opaque: func(g *ssa.Function) bool { return instFunc(g) || !inPkg(g, "internal/ins") || !givesFn(g) },
			BackEdge: func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
				for q, v := range next {
					if isPtrTo(q.Type(), pkgFn, "Block") && x.find(v) != x.find(lc.phi[q]) {
						isMain(x, v)
					}
				}
			},
		}
		x := newExec(p, h)
		ps := x.params(f)
		for i := 0; i < f.Signature.Params().Len(); i++ {
			if b, ok := f.Signature.Params().At(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.String {
				nm = ps[i]
			}
		}
		x.run(f, ps, func(fr *Frame, res *Term) {
			v, err := x.extract(res, 0), x.find(x.extract(res, int(f.Signature.Results().Len())-1))
			if x.truth(x.ts.Bin(token.EQL, err, x.ts.Nil(), false)) == no {
				return
			}
			v = x.find(v)
			if v.op == OpSym || v.op == OpNil {
				return // what the iterations made of it
			}
			isMain(x, v)
		})
		r.ob("main", "taken", taken > 0, pos, "the main bus is never set")
		r.done(x, p.fname(f))
	}
	r.ob("main", "function", found > 0, "-", "the function that instantiates the main bus was not found")
}
