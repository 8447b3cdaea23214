package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Symbols of the parser packages: how they are made of the syntax tree.

// scopeParam gives the index of the parameter of type Scope, or -1.
func scopeParam(f *ssa.Function) int {
	n := 0
	if f.Signature.Recv() != nil {
		n = 1
	}
	for i := n; i < len(f.Params); i++ {
		if types.IsInterface(f.Params[i].Type()) && isNamed(f.Params[i].Type(), pkgPrs, "Scope") {
			return i
		}
	}
	return -1
}

// builds tells what a builder builds: Const, Inst or Type, and whether one or
// a list.
func builds(f *ssa.Function) (kind string, list bool) {
	if !inPkg(f, pkgPrs) || f.Signature.Recv() != nil || f.Parent() != nil || len(f.Blocks) == 0 {
		return
	}
	rs := f.Signature.Results()
	if rs.Len() < 1 {
		return
	}
	t := rs.At(0).Type()
	if s, ok := t.Underlying().(*types.Slice); ok {
		list = true
		t = s.Elem()
	}
	for _, k := range symbolKinds {
		if isPtrTo(t, pkgPrs, k) {
			// from the syntax tree
			for _, q := range f.Params {
				qt := q.Type()
				if s, ok := qt.Underlying().(*types.Slice); ok {
					qt = s.Elem()
				}
				if isNamed(qt, pkgAst, k) {
					return k, list
				}
			}
		}
	}
	return "", false
}

// buildWalk follows the making of one symbol, list of symbols or file.
type buildWalk struct {
	p     *Prog
	r     *Report
	x     *Exec
	f     *ssa.Function
	args  []*Term
	each  eachTrack
	made  *Term // the symbol
	exits int
}

// made of: functions of prs that are walked on their own.
func (p *Prog) builderSet() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	for _, f := range p.funcs {
		if !inPkg(f, pkgPrs) || len(f.Blocks) == 0 || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		if k, _ := builds(f); k != "" {
			out[f] = true
		} else if f.Signature.Recv() == nil && takesNode(f) && (scopeParam(f) >= 0 || importList(f)) {
			out[f] = true
		}
	}
	return out
}

// importList tells whether f makes a list of imports.
func importList(f *ssa.Function) bool {
	rs := f.Signature.Results()
	return rs.Len() > 0 && elemNamed(rs.At(0).Type(), pkgPrs, "Import")
}

// takesNode tells whether f is given a part of the syntax tree.
func takesNode(f *ssa.Function) bool {
	for _, q := range f.Params {
		t := q.Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if n, ok := types.Unalias(deref(t)).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/"+pkgAst) {
			return true
		}
	}
	return false
}

// allSymbols tells whether f gives all the symbols of a container.
func allSymbols(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if rs.Len() != 1 || f.Signature.Recv() == nil || f.Signature.Params().Len() > 0 {
		return false
	}
	return isSymbolList(rs.At(0).Type())
}

func isSymbolList(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), pkgPrs, "Symbol")
}

// isAllOf: the list is the answer of such a function.
func isAllOf(l *Term) bool {
	return l.op == OpCall && len(l.args) == 1 && strings.HasSuffix(strings.SplitN(l.aux, "@", 2)[0], ".Symbols")
}

// checkAllSymbols: the functions that give all the symbols leave none out.
func checkAllSymbols(p *Prog, r *Report) {
	for _, f := range p.funcs {
		if !inPkg(f, pkgPrs) || f.Synthetic != "" || !allSymbols(f) || len(f.Blocks) == 0 {
			continue
		}
		T := f.Signature.Recv().Type()
		var x *Exec
		var h Hooks
		e := eachTrack{}
		e.hook(&h)
		x = newExec(p, h)
		obj := x.params(f)[0]
		x.run(f, []*Term{obj}, func(fr *Frame, res *Term) {
			for _, k := range symbolKinds {
				var src []ownSource
				if _, ok := T.Underlying().(*types.Pointer); ok {
					src = ownSources(x, obj, deref(T), k)
				} else {
					st, ok := T.Underlying().(*types.Struct)
					for i := 0; ok && i < st.NumFields(); i++ {
						if s, ok := st.Field(i).Type().Underlying().(*types.Slice); ok && isPtrTo(s.Elem(), pkgPrs, k) {
							src = append(src, ownSource{st.Field(i).Name(), x.find(x.Field(obj, T, i)), nil, s.Elem()})
						}
					}
				}
				if len(src) == 0 || isAllOf(x.find(res)) {
					continue
				}
				for _, s := range src {
					if s.mp != nil {
						continue
					}
					all := x.provesLE0(x.ts.Poly(x.length(s.t)))
					for _, ev := range x.events {
						if ev.Kind != "each" || ev.Name != "collect" || len(ev.over) != 1 || ev.times != 1 || x.find(ev.over[0]) != s.t {
							continue
						}
						l, ok := elementOf(x.find(peel(x.find(ev.Args[1]))))
						all = all || ok && x.find(l) == s.t
					}
					r.ob("symbols", p.fname(f)+" "+s.name, all, p.pos(f.Pos()), "%s leaves some of %s out", f.Name(), s.name)
				}
			}
		})
		r.done(x, p.fname(f))
	}
}

func walkBuilder(p *Prog, r *Report, f *ssa.Function, set map[*ssa.Function]bool, more func(w *buildWalk, h *Hooks), ret func(w *buildWalk, res *Term)) *buildWalk {
	w := &buildWalk{p: p, r: r, f: f}
	h := Hooks{
		Opaque: func(g *ssa.Function) bool {
			if inPkg(g, pkgAst) && g.Signature.Recv() != nil && g.Name() != "Text" {
				return false
			}
			return g != f && set[g] || !inPkg(g, pkgPrs) || allSymbols(g)
		},
	}
	if more != nil {
		more(w, &h)
	}
	w.each.hook(&h)
	x := newExec(p, h)
	w.x = x
	w.args = x.params(f)
	x.run(f, w.args, func(fr *Frame, res *Term) {
		ret(w, res)
	})
	r.done(x, p.fname(f))
	return w
}

// ok tells that the call that ended with the tuple succeeded: its last result
// is a nil error. It assumes so when it is not known.
func succeeded(x *Exec, f *ssa.Function, res *Term) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if isError(rs.At(i).Type()) {
			e := res
			if rs.Len() > 1 {
				e = x.extract(res, i)
			}
			c := x.ts.Bin(token.EQL, x.find(e), x.ts.Nil(), false)
			if x.truth(c) == no || !x.assume(c, true) {
				return false
			}
		}
	}
	return true
}

// owner strips the fields of an address.
func owner(a *Term) *Term {
	for a.op == OpFieldAddr {
		a = a.args[0]
	}
	return a
}

// elementOf tells whether t is the element of a list for the parameter of the
// innermost loop, and gives the list.
func elementOf(t *Term) (*Term, bool) {
	if t.op == OpLoad {
		t = t.args[0]
	}
	if (t.op == OpIndexAddr || t.op == OpIndex) && t.args[1].op == OpParam && t.args[1].aux == "κ0" {
		return t.args[0], true
	}
	return nil, false
}

// placeOf gives the address a value was read from, nil when it was put
// together from several places.
func placeOf(x *Exec, t *Term) *Term {
	t = x.find(t)
	switch t.op {
	case OpIface:
		return placeOf(x, t.args[0])
	case OpLoad:
		return t.args[0]
	case OpStruct:
		var base *Term
		st, ok := t.typ.Underlying().(*types.Struct)
		if !ok || st.NumFields() != len(t.args) {
			return nil
		}
		for i, a := range t.args {
			b := placeOf(x, a)
			if b == nil || b.op != OpFieldAddr || b.aux != structName(t.typ)+":"+st.Field(i).Name() || base != nil && base != b.args[0] {
				return nil
			}
			base = b.args[0]
		}
		return base
	}
	return nil
}

// canonNode is one form for a node and all copies of it.
func canonNode(x *Exec, t *Term) *Term {
	t = x.find(t)
	if t.op == OpIface {
		return canonNode(x, t.args[0])
	}
	if a := placeOf(x, t); a != nil {
		return a
	}
	return t
}

// partOf gives the node and the field a value is of.
func partOf(x *Exec, t *Term) (*Term, string) {
	t = x.find(t)
	if t.op == OpIface {
		return partOf(x, t.args[0])
	}
	if t.op == OpField {
		_, f, _ := strings.Cut(t.aux, ":")
		return canonNode(x, t.args[0]), f
	}
	if a := placeOf(x, t); a != nil && a.op == OpFieldAddr {
		_, f, _ := strings.Cut(a.aux, ":")
		return a.args[0], f
	}
	return nil, ""
}

// astPart tells whether t is the field of the syntax tree node.
func astPart(x *Exec, t, node *Term, field string) bool {
	n, f := partOf(x, t)
	return n != nil && f == field && n == canonNode(x, node)
}

// textOf tells whether t is the text in src of the field of the node.
func textOf(x *Exec, t, node, src *Term, field string) bool {
	t = x.find(t)
	return t.op == OpCall && strings.HasPrefix(t.aux, pkgTok+".Text") && len(t.args) == 2 && astPart(x, t.args[0], node, field) && x.find(t.args[1]) == x.find(src)
}

// srcParam finds the source text among the arguments.
func (w *buildWalk) srcParam() *Term {
	for i, q := range w.f.Params {
		if s, ok := q.Type().Underlying().(*types.Slice); ok {
			if b, ok := s.Elem().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return w.args[i]
			}
		}
	}
	return nil
}

// nodeParam finds the syntax tree node, or list of nodes, among the arguments.
func (w *buildWalk) nodeParam(kind string) (*Term, types.Type) {
	for i, q := range w.f.Params {
		t := q.Type()
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if isNamed(deref(t), pkgAst, kind) {
			return w.args[i], q.Type()
		}
	}
	return nil, nil
}

// called lists the calls of functions of the set done so far on the path.
func (w *buildWalk) called(set map[*ssa.Function]bool) (out []Event) {
	for _, e := range w.x.events {
		if e.Kind == "build" {
			out = append(out, e)
		}
	}
	return
}

// value runs a function without side effects and gives its result, nil when it
// differs between paths.
func (x *Exec) value(f *ssa.Function, args ...*Term) *Term {
	if f == nil {
		return nil
	}
	var out *Term
	n := 0
	m := x.mark()
	x.quiet++
	x.run(f, args, func(fr *Frame, res *Term) {
		n++
		out = x.find(res)
	})
	x.quiet--
	x.undo(m)
	if n != 1 {
		return nil
	}
	return out
}

// get asks a symbol for one of its attributes.
func (w *buildWalk) get(obj *Term, kind, name string) *Term {
	n := w.p.named(pkgPrs, kind)
	if n == nil {
		return nil
	}
	sel := w.p.ssa.MethodSets.MethodSet(types.NewPointer(n)).Lookup(n.Obj().Pkg(), name)
	if sel == nil {
		return nil
	}
	return w.x.value(w.p.ssa.MethodValue(sel), obj)
}

// checkScopePassing: expressions and definitions are made in the scope they
// are written in.
func checkScopePassing(p *Prog, r *Report) {
	set := p.builderSet()
	n := 0
	seen := map[ssa.Instruction]bool{}
	judge := func(w *buildWalk, h *Hooks, own func(v *Term) bool) {
		f := w.f
		h.Call = func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term) {
			if callee == nil && len(args) == 2 && in.Common().IsInvoke() && isNamed(in.Common().Args[0].Type(), pkgPrs, "Scope") {
				w.each.act(x, "scoped", x.find(args[0]), x.find(peel(x.find(args[1]))))
				return
			}
			if callee == nil || !set[callee] {
				return
			}
			i := scopeParam(callee)
			if i < 0 {
				return
			}
			seen[in] = true
			n++
			a := x.find(peel(x.find(args[i])))
			r.ob("scope-passed", p.fname(f)+" to "+callee.Name(), own(a), p.pos(in.Pos()), "%s is called for another scope: %s", callee.Name(), short(a))
		}
		h.Store = func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
			st, ok := in.(*ssa.Store)
			if !ok || addr.op != OpFieldAddr || !isNamed(st.Val.Type(), pkgPrs, "Scope") {
				return
			}
			_, fld, _ := strings.Cut(addr.aux, ":")
			v := x.find(peel(x.find(val)))
			o := owner(addr)
			if o.op == OpLoad {
				w.each.act(x, "scoped", o, v)
			}
			r.ob("scope-kept", p.fname(f)+" "+fld, own(v), p.pos(in.Pos()), "the scope that is kept is another: %s", short(v))
		}
	}
	for _, f := range p.funcs {
		if !set[f] {
			continue
		}
		kind, list := builds(f)
		i := scopeParam(f)
		if i < 0 && (kind == "" || list) {
			continue
		}
		if i >= 0 {
			walkBuilder(p, r, f, set, func(w *buildWalk, h *Hooks) {
				judge(w, h, func(v *Term) bool { return v == w.x.find(peel(w.args[i])) })
			}, func(w *buildWalk, res *Term) {})
			continue
		}
		// a symbol that is a scope
		var self []*Term
		var objs = map[*Term]bool{}
		walkBuilder(p, r, f, set, func(w *buildWalk, h *Hooks) {
			judge(w, h, func(v *Term) bool {
				ok := v.op == OpAlloc && isNamed(v.typ, pkgPrs, kind)
				if ok {
					self = append(self, v)
				}
				return ok
			})
		}, func(w *buildWalk, res *Term) {
			x := w.x
			if !succeeded(x, f, res) {
				return
			}
			obj := x.find(res)
			if f.Signature.Results().Len() > 1 {
				obj = x.find(x.extract(res, 0))
			}
			objs[obj] = true
			T := p.named(pkgPrs, kind)
			for _, k := range symbolKinds {
				for _, s := range ownSources(x, obj, T, k) {
					if s.mp != nil {
						continue
					}
					m := 0
					if x.provesLE0(x.ts.Poly(x.length(s.t))) {
						m = 1
					} else {
						m = w.each.done(x, "scoped", func(list *Term, args []*Term, el *Term) bool {
							l, ok := elementOf(args[0])
							if !ok || x.find(args[1]) != obj {
								return false
							}
							l = x.find(l)
							return l == s.t || isAllOf(l) && (l.args[0].contains(func(t *Term) bool { return t == s.t }) || s.t.op == OpField && x.find(s.t.args[0]) == x.find(l.args[0]))
						})
					}
					r.ob("scope-set", kind+" "+s.name, m == 1, p.pos(f.Pos()), "the %s of a %s do not get it as their scope", s.name, strings.ToLower(kind))
				}
			}
		})
		ok := len(objs) > 0
		for _, v := range self {
			ok = ok && objs[v]
		}
		r.ob("scope-self", kind, ok, p.pos(f.Pos()), "the scope of what is in a %s is another one", strings.ToLower(kind))
	}
	_ = n
}
