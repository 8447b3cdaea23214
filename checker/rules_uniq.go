package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The part of C08 in the parser: no container of symbols or properties takes
// two of one name.

// uniqElem tells what a list holds that must have unique names.
func uniqElem(t types.Type) string {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return ""
	}
	for _, k := range symbolKinds {
		if isPtrTo(s.Elem(), pkgPrs, k) {
			return k
		}
	}
	if isNamed(s.Elem(), pkgPrs, "Prop") {
		return "Prop"
	}
	return ""
}

// insertsSymbol: the function itself adds to a list that is part of an object.
func insertsSymbol(f *ssa.Function) (kinds map[string]bool) {
	kinds = map[string]bool{}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok || uniqElem(st.Val.Type()) == "" {
				continue
			}
			switch st.Addr.(type) {
			case *ssa.FieldAddr, *ssa.Parameter:
			default:
				continue
			}
			if c, ok := st.Val.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "append" {
					kinds[uniqElem(st.Val.Type())] = true
				}
			}
		}
	}
	return
}

// uniqWalk tells whether everything f adds has a name that is new to the list,
// and how many additions were met.
func uniqWalk(p *Prog, r *Report, f *ssa.Function, kind string) (ok bool, n int, pos string) {
	ok = true
	pos = p.pos(f.Pos())
	var h Hooks
	h.Opaque = func(g *ssa.Function) bool { return !inPkg(g, pkgPrs) || p.builderSet()[g] }
	nameOf := func(x *Exec, e *Term) *Term {
		if kind == "Prop" {
			return structField(x, x.find(e), p.named(pkgPrs, "Prop"), "Name")
		}
		T := types.NewPointer(p.named(pkgPrs, kind))
		sel := p.ssa.MethodSets.MethodSet(T).Lookup(p.named(pkgPrs, kind).Obj().Pkg(), "Name")
		if sel == nil {
			return nil
		}
		return x.value(p.ssa.MethodValue(sel), x.find(e))
	}
	h.Store = func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
		st, is := in.(*ssa.Store)
		if !is || uniqElem(st.Val.Type()) != kind {
			return
		}
		v := x.find(val)
		if v.op != OpAppend || x.quiet > 0 || addr.op == OpAlloc {
			return
		}
		n++
		list := x.find(x.load(addr, st.Val.Type()))
		good := v.aux == "" && len(v.args) == 2 && x.find(v.args[0]) == list
		if good {
			s := st.Val.Type().Underlying().(*types.Slice)
			name := nameOf(x, v.args[1])
			m := x.mark()
			j := x.ts.fresh(OpSym, "j", nil)
			x.assumeLE0(polyConst(0).add(polyAtom(j), -1))
			x.assume(x.ts.Bin(token.LSS, j, x.length(list), false), true)
			other := nameOf(x, x.loadElem(list, j, s.Elem()))
			good = name != nil && other != nil && x.truth(x.ts.Bin(token.EQL, other, name, false)) == no || x.provesLE0(x.ts.Poly(x.length(list)))
			x.undo(m)
			// or a table of the names
			if !good && name != nil && addr.op == OpFieldAddr {
				for l, t := range x.lits {
					if t || l.op != OpLookupOk || x.find(l.args[1]) != x.find(name) {
						continue
					}
					tab := x.find(l.args[0])
					good = good || tab.op == OpLoad && tab.args[0].op == OpFieldAddr && tab.args[0].args[0] == addr.args[0]
				}
			}
		}
		if !good {
			ok = false
			pos = p.pos(in.Pos())
		}
	}
	x := newExec(p, h)
	x.run(f, x.params(f), func(fr *Frame, res *Term) {})
	r.done(x, p.fname(f))
	return
}

func checkUniqueSymbols(p *Prog, r *Report) {
	callers := map[*ssa.Function][]*ssa.Function{}
	for _, f := range p.funcs {
		seen := map[*ssa.Function]bool{}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if g := ci.Common().StaticCallee(); g != nil && !seen[g] {
						seen[g] = true
						callers[g] = append(callers[g], f)
					}
				}
			}
		}
	}
	total := map[string]int{}
	var decide func(f *ssa.Function, kind string, depth int) (bool, int, string)
	decide = func(f *ssa.Function, kind string, depth int) (bool, int, string) {
		ok, n, pos := uniqWalk(p, r, f, kind)
		if ok || depth > 2 || token.IsExported(f.Name()) && f.Signature.Recv() == nil {
			return ok, n, pos
		}
		up := 0
		for _, g := range callers[f] {
			if g == f || !p.inRepo(g) {
				continue
			}
			gok, gn, gpos := decide(g, kind, depth+1)
			if !gok || gn == 0 {
				return false, n, gpos
			}
			up++
		}
		return up > 0, n, pos
	}
	for _, f := range p.funcs {
		if !inPkg(f, pkgPrs) || f.Synthetic != "" {
			continue
		}
		var ks []string
		for k := range insertsSymbol(f) {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			ok, n, pos := decide(f, k, 0)
			total[k] += n
			r.ob("unique-symbol", p.fname(f)+" "+k, ok && n > 0, pos, "a %s is added although one of its name may be there", strings.ToLower(k))
		}
	}
	for _, k := range append([]string{"Prop"}, symbolKinds...) {
		r.ob("unique-symbol", k, total[k] > 0, "-", "no place was found where a %s is added", strings.ToLower(k))
	}
}
