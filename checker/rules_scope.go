package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C15: what a name refers to.

var symbolKinds = []string{"Const", "Inst", "Type"}

// ownSource is a place of a scope where definitions of a kind are kept.
type ownSource struct {
	name string
	t    *Term
	mp   *types.Map // nil for a list
	el   types.Type
}

// ownSources lists the lists and maps of definitions of a kind, lists first.
func ownSources(x *Exec, obj *Term, T types.Type, kind string) (out []ownSource) {
	var maps []ownSource
	var rec func(addr *Term, T types.Type)
	rec = func(addr *Term, T types.Type) {
		st, ok := T.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			switch u := f.Type().Underlying().(type) {
			case *types.Slice:
				if isPtrTo(u.Elem(), pkgPrs, kind) {
					out = append(out, ownSource{f.Name(), x.find(x.load(x.FieldAddr(addr, T, i), f.Type())), nil, u.Elem()})
				}
			case *types.Map:
				if isPtrTo(u.Elem(), pkgPrs, kind) {
					maps = append(maps, ownSource{f.Name(), x.find(x.load(x.FieldAddr(addr, T, i), f.Type())), u, u.Elem()})
				}
			case *types.Struct:
				if f.Embedded() {
					rec(x.FieldAddr(addr, T, i), f.Type())
				}
			}
		}
	}
	rec(obj, T)
	return append(out, maps...)
}

// nameOfSymbol is the name of the definition v points to.
func nameOfSymbol(x *Exec, v *Term, el types.Type) *Term {
	return x.fieldByName(v, deref(el), "name")
}

// lacks tells that the source has no definition of the name.
func (s ownSource) lacks(x *Exec, name *Term) bool {
	if s.mp != nil {
		if s.t.op == OpNil {
			return true
		}
		for l, v := range x.lits {
			if l.op == OpLookupOk && !v && x.find(l.args[0]) == s.t && x.find(l.args[1]) == x.find(name) {
				return true
			}
		}
		return false
	}
	n := x.length(s.t)
	if x.provesLE0(x.ts.Poly(n)) {
		return true
	}
	m := x.mark()
	defer x.undo(m)
	j := x.ts.fresh(OpSym, "j", nil)
	x.assumeLE0(polyConst(0).add(polyAtom(j), -1))
	x.assume(x.ts.Bin(token.LSS, j, n, false), true)
	other := nameOfSymbol(x, x.loadElem(s.t, j, s.el), s.el)
	return x.truth(x.ts.Bin(token.EQL, other, name, false)) == no
}

// holds tells that v is the definition of the name in the source.
func (s ownSource) holds(x *Exec, v, name *Term) bool {
	if s.mp != nil {
		if v.op != OpLookup || x.find(v.args[0]) != s.t || x.find(v.args[1]) != x.find(name) {
			return false
		}
		for l, b := range x.lits {
			if l.op == OpLookupOk && b && x.find(l.args[0]) == s.t && x.find(l.args[1]) == x.find(name) {
				return true
			}
		}
		return false
	}
	if v.op != OpLoad || v.args[0].op != OpIndexAddr || x.find(v.args[0].args[0]) != s.t {
		return false
	}
	return x.truth(x.ts.Bin(token.EQL, nameOfSymbol(x, v, s.el), name, false)) == yes
}

// qualified tells whether the name has a dot.
func qualified(x *Exec, name *Term) tri {
	dot := x.ts.Str(".")
	isDot := func(t *Term) bool {
		if x.same(t, dot) {
			return true
		}
		i, ok := t.intVal()
		return ok && i == '.'
	}
	on := func(t *Term) bool {
		return t.op == OpCall && len(t.args) >= 2 && x.find(t.args[0]) == x.find(name) && isDot(x.find(t.args[1]))
	}
	for l, v := range x.lits {
		r := unknown
		l.contains(func(t *Term) bool {
			switch {
			case on(t) && strings.HasPrefix(t.aux, "strings.Contains"):
				if l == t {
					r = triOf(v)
				}
			case t.op == OpExtract && t.aux == "2" && on(t.args[0]) && strings.HasPrefix(t.args[0].aux, "strings.Cut"):
				if l == t {
					r = triOf(v)
				}
			case on(t) && (strings.HasPrefix(t.aux, "strings.Index") || strings.HasPrefix(t.aux, "strings.LastIndex")):
				if x.provesLE0(polyConst(0).add(x.ts.Poly(t), -1)) || x.truth(x.ts.Bin(token.EQL, t, x.ts.Int(-1), true)) == no {
					r = yes
				} else if x.provesLE0(x.ts.Poly(t).add(polyConst(1), 1)) {
					r = no
				}
			case on(t) && strings.HasPrefix(t.aux, "strings.Split"):
				n := x.ts.Poly(x.length(t))
				if x.provesLE0(polyConst(2).add(n, -1)) {
					r = yes
				} else if x.provesLE0(plusC(n, -1)) {
					r = no
				}
			}
			return false
		})
		if r != unknown {
			return r
		}
	}
	return unknown
}

// namePart tells whether t is the part of a qualified name before (0) or after
// (1) the dot.
func namePart(x *Exec, t, name *Term, i int) bool {
	t = x.find(t)
	split := func(c *Term) bool {
		return c.op == OpCall && len(c.args) >= 2 && x.find(c.args[0]) == x.find(name) && x.same(c.args[1], x.ts.Str("."))
	}
	switch t.op {
	case OpLoad:
		return namePart(x, t.args[0], name, i)
	case OpIndexAddr, OpIndex:
		c := x.find(t.args[0])
		return split(c) && strings.HasPrefix(c.aux, "strings.Split") && x.same(t.args[1], x.ts.Int(int64(i)))
	case OpExtract:
		c := x.find(t.args[0])
		return split(c) && strings.HasPrefix(c.aux, "strings.Cut") && t.aux == itoa(i)
	case OpSlice:
		idx := func(u *Term) bool {
			u = x.find(u)
			return u.op == OpCall && len(u.args) >= 2 && (u.aux == "strings.Index" || u.aux == "strings.IndexByte" || u.aux == "strings.IndexRune") && x.find(u.args[0]) == x.find(name)
		}
		if x.find(t.args[0]) != x.find(name) {
			return false
		}
		found := false
		t.contains(func(u *Term) bool {
			found = found || idx(u)
			return false
		})
		if !found {
			return false
		}
		if i == 0 {
			return x.same(t.args[1], x.ts.Int(0)) && idx(t.args[2])
		}
		lo := x.ts.Poly(t.args[1])
		for _, m := range lo.m {
			for _, a := range m.atoms {
				if idx(a) {
					return lo.equal(polyAtom(a).add(polyConst(1), 1)) && (t.args[2].op == OpNil || t.args[2].op == OpLen)
				}
			}
		}
	}
	return false
}

// lookupFns are the functions a scope answers a question for a name with.
func (p *Prog) lookupFn(T types.Type, kind string) *ssa.Function {
	n, ok := deref(T).(*types.Named)
	if !ok {
		return nil
	}
	return p.method(pkgPrs, n.Obj().Name(), "Get"+kind)
}

type lookupWalk struct {
	p    *Prog
	r    *Report
	x    *Exec
	f    *ssa.Function
	T    types.Type
	kind string
	name *Term
	recv *Term
	what string
}

func checkLookups(p *Prog, r *Report) {
	scopes := p.concrete(pkgPrs, "Scope")
	r.ob("scopes", "kinds", len(scopes) >= 4, "-", "only %d kinds of scopes found", len(scopes))
	pkgFns := map[*ssa.Function]bool{}
	for _, k := range symbolKinds {
		if f := p.method(pkgPrs, "Package", "Get"+k); f != nil {
			pkgFns[f] = true
		}
	}
	for _, T := range scopes {
		for _, kind := range symbolKinds {
			f := p.lookupFn(T, kind)
			what := typeName(T) + ".Get" + kind
			if f == nil || len(f.Blocks) == 0 {
				r.ob("lookup", what, false, "-", "%s not found", what)
				continue
			}
			w := &lookupWalk{p: p, r: r, f: f, T: deref(T), kind: kind, what: what}
			x := newExec(p, Hooks{
				Opaque: func(g *ssa.Function) bool { return pkgFns[g] && g != f },
				Panic: func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
					r.ob("lookup", w.what+" panic", false, p.pos(in.Pos()), "looking up a name may end in a panic")
				},
			})
			w.x = x
			args := x.params(f)
			if len(args) != 2 {
				r.ob("lookup", what, false, p.pos(f.Pos()), "%s has an unknown form", what)
				continue
			}
			w.recv, w.name = args[0], args[1]
			n := 0
			x.run(f, args, func(fr *Frame, res *Term) {
				n++
				w.answer(x.find(x.extract(res, 0)), x.find(x.extract(res, 1)))
			})
			r.ob("lookup", what+" ends", n > 0, p.pos(f.Pos()), "%s never answers", what)
			r.done(x, what)
		}
	}
}

// delegated tells whether a and b are the two results of one call of the lookup
// function of this kind, or one of them is and the other follows.
func (w *lookupWalk) delegated(t *Term, i string) *Term {
	t = w.x.find(t)
	if t.op == OpExtract && t.aux == i {
		c := t.args[0]
		if c.op == OpCall && strings.Contains(c.aux+"@", ".Get"+w.kind+"@") || c.op == OpCall && strings.HasSuffix(strings.SplitN(c.aux, "@", 2)[0], "Get"+w.kind) {
			return c
		}
	}
	return nil
}

// failed lists the calls of the lookup function known to have failed.
func (w *lookupWalk) failed(c *Term) tri {
	e := w.x.ts.mk(OpExtract, "1", nil, c)
	switch w.x.truth(w.x.ts.Bin(token.EQL, e, w.x.ts.Nil(), false)) {
	case yes:
		return no
	case no:
		return yes
	}
	return unknown
}

// proper tells whether the call asks the right place for the right name.
func (w *lookupWalk) proper(c *Term) bool {
	x, p := w.x, w.p
	if len(c.args) != 2 {
		return false
	}
	to, nm := x.find(c.args[0]), x.find(c.args[1])
	if _, fld := scopeField(w.T, "Scope"); fld {
		a := w.load("Scope", true)
		return to == a && nm == x.find(w.name)
	}
	if _, fld := scopeField(w.T, "Package"); fld {
		switch qualified(x, w.name) {
		case no:
			return to == w.load("Package", false) && nm == x.find(w.name)
		case yes:
			if !namePart(x, nm, w.name, 1) {
				return false
			}
			lk := w.imported(to)
			if lk == nil {
				return false
			}
			for l, v := range x.lits {
				if l.op == OpLookupOk && v && x.find(l.args[0]) == x.find(lk.args[0]) && x.find(l.args[1]) == x.find(lk.args[1]) {
					return true
				}
			}
		}
	}
	_ = p
	return false
}

// imported gives the lookup of the import a package was taken from.
func (w *lookupWalk) imported(to *Term) *Term {
	x := w.x
	var lk *Term
	to.contains(func(t *Term) bool {
		if t.op == OpLookup {
			lk = t
		}
		return false
	})
	if lk == nil || !strings.HasSuffix(to.aux, ":Pkg") && !(to.op == OpLoad && strings.HasSuffix(to.args[0].aux, ":Pkg")) {
		return nil
	}
	if !namePart(x, lk.args[1], w.name, 0) {
		return nil
	}
	m := x.find(lk.args[0])
	if m != x.find(x.fieldByName(w.recv, w.T, "Imports")) {
		return nil
	}
	return lk
}

// scopeField finds the field of the interface or pointer type of package prs.
func scopeField(T types.Type, name string) (string, bool) {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return "", false
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if isNamed(f.Type(), pkgPrs, name) || isPtrTo(f.Type(), pkgPrs, name) {
			return f.Name(), true
		}
		if f.Embedded() {
			if n, ok := scopeField(f.Type(), name); ok {
				return n, true
			}
		}
	}
	return "", false
}

func (w *lookupWalk) load(typ string, ifc bool) *Term {
	n, _ := scopeField(w.T, typ)
	return w.x.find(w.x.fieldByName(w.recv, w.T, n))
}

func (w *lookupWalk) answer(v, err *Term) {
	x, r, p := w.x, w.r, w.p
	pos := p.pos(w.f.Pos())
	src := ownSources(x, w.recv, w.T, w.kind)
	outer := ""
	if _, ok := scopeField(w.T, "Scope"); ok {
		outer = "scope"
	} else if _, ok := scopeField(w.T, "Package"); ok {
		outer = "file"
	}
	lacksAll := func(n int) (bool, string) {
		if outer == "file" {
			return true, ""
		}
		for _, s := range src[:n] {
			if !s.lacks(x, w.name) {
				return false, s.name
			}
		}
		return true, ""
	}
	errNil := x.truth(x.ts.Bin(token.EQL, err, x.ts.Nil(), false))
	cv, ce := w.delegated(v, "0"), w.delegated(err, "1")
	// found in an outer scope
	if cv != nil && (ce == cv || errNil == yes && w.failed(cv) == no) {
		r.ob("outer", w.what, w.proper(cv), pos, "%s asks %s", w.what, short(cv))
		ok, s := lacksAll(len(src))
		r.ob("nearest", w.what+" outer", ok, pos, "%s asks the outer scope although %s may have the name", w.what, s)
		return
	}
	if errNil != no {
		// an own definition
		if errNil == yes {
			for i, s := range src {
				if s.holds(x, v, w.name) {
					ok, by := lacksAll(i)
					if s.mp == nil {
						ok = true
					}
					r.ob("own", w.what+" "+s.name, true, pos, "")
					r.ob("nearest", w.what+" "+s.name, ok, pos, "%s takes the name from %s although %s may have it", w.what, s.name, by)
					return
				}
			}
		}
		r.ob("answer", w.what, false, pos, "%s answers %s, which is no definition of the name", w.what, short(v))
		return
	}
	// nothing found
	ok, s := lacksAll(len(src))
	r.ob("not-found", w.what, ok, pos, "%s finds nothing although %s may have the name", w.what, s)
	if outer == "" {
		return
	}
	asked := ce != nil && w.proper(ce)
	for l := range x.lits {
		l.contains(func(t *Term) bool {
			if c := w.delegated(t, "1"); c != nil && w.failed(c) == yes && w.proper(c) {
				asked = true
			}
			return false
		})
	}
	if outer == "file" && !asked && qualified(x, w.name) == yes {
		for l, v := range x.lits {
			if l.op == OpLookupOk && !v && x.find(l.args[0]) == x.find(x.fieldByName(w.recv, w.T, "Imports")) && namePart(x, l.args[1], w.name, 0) {
				asked = true
			}
		}
	}
	r.ob("not-found", w.what+" outer", asked, pos, "%s finds nothing without having asked the outer scope", w.what)
}

func checkScope(p *Prog, r *Report) {
	checkLookups(p, r)
	checkScopePassing(p, r)
	checkAllSymbols(p, r)
	checkAsked(p, r)
	checkMainBus(p, r)
	(&madeCheck{p: p, r: r}).run()
	r.floor("lookup", 12)
	r.floor("outer", 9)
	r.floor("symbols", 3)
	r.floor("own", 10)
}

func init() { checks["C16"] = checkImports16; checks["C17"] = checkArgs17; checks["C15"] = checkScope }
