package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// How the instantiation asks for symbols: C15, and cycles of types: C23.

// lookupFunc tells whether f is a lookup function of a scope.
func lookupFunc(p *Prog, f *ssa.Function) bool {
	if f == nil || !inPkg(f, pkgPrs) || f.Signature.Recv() == nil {
		return false
	}
	for _, k := range symbolKinds {
		if f.Name() == "Get"+k && f.Signature.Results().Len() == 2 && isError(f.Signature.Results().At(1).Type()) {
			return true
		}
	}
	return false
}

func lookupName(name string) string {
	for _, k := range symbolKinds {
		if strings.HasSuffix(name, ".Get"+k) {
			return k
		}
	}
	return ""
}

// asked tells whether the lookup asks where the functionality stands for its
// type.
func askedFor(x *Exec, c *Term) *Term {
	if c.op != OpCall || len(c.args) != 2 {
		return nil
	}
	at, nm := x.find(c.args[0]), x.find(c.args[1])
	call := func(t *Term, m string) *Term {
		n := strings.SplitN(t.aux, "@", 2)[0]
		if t.op == OpCall && len(t.args) == 1 && strings.HasSuffix(n, "."+m) && strings.Contains(n, "prs.") {
			return x.find(t.args[0])
		}
		return nil
	}
	f := call(nm, "Type")
	if f == nil {
		return nil
	}
	if s := call(at, "Scope"); s == f {
		return f
	}
	// at the level of a file
	if s := call(at, "File"); s == f {
		for t := range x.rep {
			if call(t, "Scope") == f && x.find(t).op == OpNil {
				return f
			}
		}
	}
	return nil
}

func isChain(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), pkgPrs, "Functionality")
}

func checkAsked(p *Prog, r *Report) {
	n, chains := 0, 0
	for _, f := range p.funcs {
		if !inPkg(f, "internal/ins") || len(f.Blocks) == 0 || f.Parent() != nil {
			continue
		}
		asks := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				cc := ci.Common()
				if cc.IsInvoke() && lookupName("."+cc.Method.Name()) != "" && isNamed(cc.Value.Type(), pkgPrs, "Scope") || lookupFunc(p, cc.StaticCallee()) {
					asks = true
				}
			}
		}
		var x *Exec
		isRes := f.Signature.Results().Len() == 1 && isChain(f.Signature.Results().At(0).Type()) && f.Signature.Params().Len() > 0 && isNamed(f.Signature.Params().At(0).Type(), pkgPrs, "Functionality")
		if asks {
			n++
		} else if !isRes {
			continue
		}
		var grown, ends bool
		h := Hooks{
			Opaque: func(g *ssa.Function) bool { return lookupFunc(p, g) || !inPkg(g, "internal/ins") },
			Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term) {
				k := lookupName(name)
				if k == "" || len(args) != 2 || callee != nil && !lookupFunc(p, callee) {
					return
				}
				pos := p.pos(in.Pos())
				what := p.fname(fr.fn) + " " + k
				at := x.find(args[0])
				if callee != nil && isPtrTo(callee.Params[0].Type(), pkgPrs, "Package") {
					ok := at.op == OpLoad && at.args[0].op == OpIndexAddr && x.same(at.args[0].args[1], x.ts.Int(0))
					if ok {
						l := x.find(at.args[0].args[0])
						ok = l.op == OpLookup && l.args[0].op == OpParam && x.same(l.args[1], x.ts.Str("main"))
					}
					ok = ok && x.find(args[1]).op == OpParam && k == "Inst"
					r.ob("asked", what, ok, pos, "%s is asked for %s", short(at), short(args[1]))
					return
				}
				c := x.ts.mk(OpCall, name, nil, x.canon(args)...)
				r.ob("asked", what, askedFor(x, c) != nil && k == "Type", pos, "%s is asked for %s", short(at), short(args[1]))
			},
		}
		if isRes {
			h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
				var cur, chain *ssa.Phi
				for q := range next {
					if isChain(q.Type()) {
						chain = q
					} else if isNamed(q.Type(), pkgPrs, "Functionality") {
						cur = q
					}
				}
				if cur == nil || chain == nil || fr.caller != nil {
					return
				}
				pos := p.pos(f.Pos())
				nf := x.find(peel(x.find(next[cur])))
				for nf.op == OpAssert {
					nf = x.find(nf.args[0])
				}
				ok := nf.op == OpExtract && nf.aux == "0" && askedFor(x, nf.args[0]) == x.find(lc.phi[cur])
				r.ob("chain", "link", ok, pos, "the next type of a chain is not the one its type names: %s", short(nf))
				nc := x.find(next[chain])
				old := x.find(lc.phi[chain])
				ok = false
				if nc.op == OpAppend && len(nc.args) == 2 && x.find(nc.args[1]) == old {
					if el, k := x.varargs(x.find(nc.args[0])); k && len(el) == 1 {
						e := x.find(peel(x.find(el[0])))
						for e.op == OpAssert {
							e = x.find(e.args[0])
						}
						ok = e == nf
					}
				}
				grown = true
				r.ob("chain", "order", ok, pos, "the next type is not put before the ones that stem from it: %s", short(nc))
				e0 := x.find(lc.entry[chain])
				ok = false
				if el, k := x.varargs(e0); k && len(el) == 1 {
					ok = x.find(peel(x.find(el[0]))) == x.find(peel(x.find(lc.entry[cur]))) && x.find(el[0]).op == OpParam
				}
				r.ob("chain", "start", ok, pos, "a chain does not start with the functionality itself")
				// no type twice
				m := x.mark()
				j := x.ts.fresh(OpSym, "j", nil)
				x.assumeLE0(polyConst(0).add(polyAtom(j), -1))
				x.assume(x.ts.Bin(token.LSS, j, x.length(old), false), true)
				el := x.loadElem(old, j, chain.Type().Underlying().(*types.Slice).Elem())
				distinct := false
				for t := x.find(next[cur]); ; t = x.find(t.args[0]) {
					distinct = distinct || x.truth(x.ts.Bin(token.EQL, el, t, false)) == no
					if t.op != OpAssert && t.op != OpIface {
						break
					}
				}
				x.undo(m)
				// or the types already met are kept in a set
				bare := func(t *Term) *Term {
					t = x.find(peel(x.find(t)))
					for t.op == OpAssert {
						t = x.find(peel(x.find(t.args[0])))
					}
					return t
				}
				for l, v := range x.lits {
					if v || l.op != OpLookup && l.op != OpLookupOk || bare(l.args[1]) != nf {
						continue
					}
					put := false
					for _, ev := range x.events[lc.evMark:] {
						put = put || ev.Kind == "mapset" && ev.Args[0] == x.find(l.args[0]) && bare(ev.Args[1]) == nf && (l.op == OpLookupOk || x.find(ev.Args[2]).isTrue())
						if ev.Kind == "delete" {
							put = false
							break
						}
					}
					distinct = distinct || put
				}
				if r.prop == "C23" {
					r.ob("cycle", "chain", distinct, pos, "a type may be put into the chain a second time")
				}
			}
		}
		x = newExec(p, h)
		x.run(f, x.params(f), func(fr *Frame, res *Term) {
			if !isRes {
				return
			}
			ends = true
			based := false
			for l, v := range x.lits {
				if v && l.op == OpCall && strings.HasSuffix(l.aux, ".IsBaseType") {
					based = true
				}
			}
			r.ob("chain", "end", based, p.pos(f.Pos()), "a chain may end before a base type is reached")
		})
		if isRes {
			chains++
			r.ob("chain", "grown", grown && ends, p.pos(f.Pos()), "the chain of types is never made longer")
		}
		r.done(x, p.fname(f))
	}
	r.ob("asked", "places", n >= 1, "-", "only %d functions ask for symbols", n)
	r.ob("chain", "function", chains > 0, "-", "the function that follows the chain of types was not found")
}
