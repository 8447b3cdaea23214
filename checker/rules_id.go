package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// registerify finds the function that registerifies the whole bus.
func registerify(p *Prog) *ssa.Function {
	var out *ssa.Function
	for _, f := range p.funcs {
		if f.Parent() == nil && f.Signature.Recv() == nil && f.Object() != nil && f.Object().Exported() && inPkg(f, pkgReg) {
			ps := f.Signature.Params()
			if ps.Len() >= 1 && isPtrTo(ps.At(0).Type(), pkgFn, "Block") {
				if out != nil {
					return nil
				}
				out = f
			}
		}
	}
	return out
}

func inPkg(f *ssa.Function, rel string) bool {
	pk := pkgOf(f)
	return pk != nil && strings.HasSuffix(pk.Path(), "/"+rel)
}

func isPtrTo(t types.Type, rel, name string) bool {
	pt, ok := t.Underlying().(*types.Pointer)
	return ok && isNamed(pt.Elem(), rel, name)
}

func isNamed(t types.Type, rel, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Name() == name && strings.HasSuffix(n.Obj().Pkg().Path(), rel)
}

// writesField tells if the effect writes a field of a structure of package fn.
func (e *effects) writesField(suffix string) bool {
	for k := range e.w {
		if strings.HasPrefix(k, "f:") && strings.HasSuffix(k, suffix) {
			return true
		}
	}
	return e.all
}

// setsAddresses tells if the effect gives a block its address space, as a whole
// or bound by bound.
func setsAddresses(e *effects) bool {
	return e.writesField("fn.Block:AddrSpace") || e.writesField("types.SingleRange:Start")
}

// layoutFn: functions that place whole blocks.
func layoutFn(p *Prog, f *ssa.Function) bool {
	e := p.effectsOf(f)
	return e.writesField("fn.Param:Access") || e.writesField("fn.Config:Access") || setsAddresses(e)
}

// fieldOf reads a field of the structure at address a by name.
func (x *Exec) fieldAt(a *Term, rel, typ, field string) *Term {
	n := x.p.named(rel, typ)
	if n == nil {
		return x.ts.Nil()
	}
	return x.fieldByName(a, n, field)
}

// fieldByName reads field of the structure of type T at address a; promoted
// fields are found in the embedded structure.
func (x *Exec) fieldByName(a *Term, T types.Type, field string) *Term {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return x.ts.Nil()
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return x.load(x.FieldAddr(a, T, i), st.Field(i).Type())
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Embedded() {
			if e, ok := st.Field(i).Type().Underlying().(*types.Struct); ok {
				for j := 0; j < e.NumFields(); j++ {
					if e.Field(j).Name() == field {
						return x.load(x.FieldAddr(x.FieldAddr(a, T, i), st.Field(i).Type(), j), e.Field(j).Type())
					}
				}
			}
		}
	}
	return x.ts.Nil()
}

func checkID(p *Prog, r *Report) {
	root := registerify(p)
	hroot := hashRoot(p)
	if root == nil || hroot == nil {
		r.missing("the function that registerifies the bus")
		return
	}
	static := p.named(pkgFn, "Static")
	block := p.named(pkgFn, "Block")
	if static == nil || block == nil {
		r.missing("fn.Static and fn.Block")
		return
	}
	var x *Exec
	hname := calleeName(p, hroot)
	x = newExec(p, Hooks{})
	bus := x.params(root)[0]
	type hashed struct{ t *Term }
	hashes := func() (n int, at int) {
		for i, e := range x.events {
			if e.Kind == "call" && e.Name == hname {
				n++
				at = i
			}
		}
		return
	}
	timeTerm := func(t *Term) bool {
		return t.contains(func(s *Term) bool {
			return s.op == OpCall && strings.HasPrefix(strings.TrimPrefix(s.aux, "("), "time.")
		})
	}
	x.h = Hooks{
		OpaqueCall: func(x *Exec, f *ssa.Function, args []*Term) bool {
			return !inPkg(f, pkgReg) || layoutFn(p, f) && f != root
		},
		Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, f *ssa.Function, args []*Term) {
			pos := p.pos(in.Pos())
			if f == hroot {
				a := x.find(peel(x.find(args[0])))
				r.ob("id-hash-of-bus", "identifier", a == bus, pos, "the identifier is computed from %s, not from the bus", a)
				clean := true
				for ad, c := range x.mem {
					rt := rootOf(ad)
					if (rt.op != OpAlloc || x.esc[rt]) && timeTerm(c.v) {
						clean = false
					}
				}
				r.ob("id-independent-of-time", "identifier", clean, pos, "a value derived from the current time is part of the bus when the identifier is computed")
				lay := false
				for _, e := range x.events {
					if e.Kind == "call" && e.Fn != nil {
						for _, g := range p.funcs {
							if calleeName(p, g) == e.Name && setsAddresses(p.effectsOf(g)) {
								lay = true
							}
						}
					}
				}
				r.ob("id-after-layout", "identifier", lay, pos, "the identifier is computed before addresses were assigned")
				return
			}
			if n, _ := hashes(); n > 0 && f != nil && p.inRepo(f) && layoutFn(p, f) {
				r.bad("id-after-layout", "identifier", pos, "%s changes the layout after the identifier has been computed", name)
			}
		},
		Leaf: func(x *Exec, addr, val *Term, t types.Type) {
			if n, _ := hashes(); n == 0 {
				return
			}
			rt := rootOf(addr)
			if rt.op == OpAlloc || addr.op != OpFieldAddr {
				return
			}
			if strings.Contains(addr.aux, "/"+pkgFn+".") || strings.Contains(addr.aux, "/"+pkgTypes+".") {
				ok := strings.HasSuffix(addr.aux, "fn.Block:Statics")
				r.ob("id-after-layout", "store to "+addr.aux[strings.LastIndex(addr.aux, "/")+1:], ok, "-", "an attribute of the bus changes after the identifier has been computed")
			}
		},
	}
	nret := 0
	x.run(root, x.params(root), func(fr *Frame, res *Term) {
		nret++
		pos := p.pos(root.Pos())
		n, _ := hashes()
		r.ob("id-hash-of-bus", "once", n == 1, pos, "the identifier is computed %d times on a path", n)
		bw := x.fieldAt(bus, pkgFn, "Block", "Width")
		lst := x.find(x.fieldAt(bus, pkgFn, "Block", "Statics"))
		var els []*Term
		for lst.op == OpAppend && lst.aux == "" {
			els = append(els, lst.args[1:]...)
			lst = x.find(lst.args[0])
		}
		ids := 0
		for _, e := range els {
			e = x.find(e)
			name, ok := x.find(x.fieldByName(e, static, "Name")).strVal()
			r.ob("reserved-name", "constant name", ok, pos, "a generated static has no constant name")
			if !ok {
				continue
			}
			// the name must have been free
			free := false
			for l, v := range x.lits {
				if l.op == OpCall && !v && len(l.args) == 2 && l.args[1] == x.ts.Str(name) && strings.Contains(l.aux, "HasFunctionality") && x.find(l.args[0]) == bus {
					free = true
				}
			}
			r.ob("reserved-name", name, free, pos, "%s is added without a check that no user functionality has the name", name)
			iv := x.fieldByName(e, static, "InitValue")
			w := x.fieldByName(e, static, "Width")
			fromHash := iv.contains(func(s *Term) bool { return s.op == OpCall && strings.HasPrefix(s.aux, hname) })
			acs := x.find(x.fieldByName(e, static, "Access"))
			okW := iv.contains(func(s *Term) bool {
				return s.op == OpCall && strings.Contains(s.aux, "BitStrFromInt") && len(s.args) == 2 && x.same(s.args[1], w)
			})
			r.ob("generated-value-width", name, okW, pos, "the value of %s is not made for its own width", name)
			var mk *Term
			acs.contains(func(s *Term) bool {
				if s.op == OpCall && strings.Contains(s.aux, "Access") && len(s.args) == 3 {
					mk = s
					return true
				}
				return false
			})
			r.ob("generated-access", name, mk != nil && x.same(mk.args[2], w) && x.same(mk.args[1], x.ts.Int(0)), pos, "the access of %s is not made for its own width from bit 0", name)
			if name == "ID" {
				ids++
				r.ob("id-value", "hash", fromHash && !timeTerm(iv), pos, "the value of ID is not the identifier alone")
				r.ob("id-address", "zero", mk != nil && x.same(mk.args[0], x.ts.Int(0)), pos, "ID is not at address 0")
				// width is the smaller one of bus width and 32
				d := x.ts.Poly(w)
				is32 := x.samePoly(d, polyConst(32))
				isBw := x.samePoly(d, x.ts.Poly(bw))
				le32 := x.provesLE0(d.add(polyConst(32), -1))
				leBw := x.provesLE0(d.add(x.ts.Poly(bw), -1))
				r.ob("id-width", "min(bus width, 32)", (is32 || isBw) && le32 && leBw, pos, "the width of ID is %s", w)
				// a value of 32 bits is trimmed when the bus is narrower
				if !x.provesLE0(polyConst(32).add(x.ts.Poly(bw), -1)) {
					trim := iv.contains(func(s *Term) bool { return s.op == OpBin && (s.aux == "&" || s.aux == "%" || s.aux == ">>") })
					r.ob("id-value", "trimmed", trim, pos, "the identifier is not trimmed to the width of a narrow bus")
				}
			} else {
				r.ob("generated-other", name, !fromHash, pos, "%s carries the identifier", name)
				r.ob("generated-address", name, mk != nil && !x.same(mk.args[0], x.ts.Int(0)), pos, "%s is at address 0", name)
			}
		}
		r.ob("id-present", "ID", ids == 1, pos, "there is a path without exactly one ID")
		ign := false
		_ = ign
	})
	r.ob("id-present", "paths", nret > 0, p.pos(root.Pos()), "no path returns")
	r.done(x, "registerify")
	for _, rule := range []string{"id-hash-of-bus", "id-independent-of-time", "id-after-layout", "id-value", "id-address", "id-width", "id-present"} {
		r.floor(rule, 1)
	}
	r.floor("reserved-name", 3)
}
