package main

import (
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C09: every construct is handled by every phase that tells constructs apart.

// otherKind tells whether a path of an instantiating function cannot happen
// because it takes an inner functionality not for what its base type says.
func (c *insCheck) otherKind(x *Exec) bool {
	for a, b := range x.rep {
		k, ok := x.find(b).strVal()
		if !ok || a.op != OpCall || !strings.HasSuffix(baseName(a), ".Type") || len(a.args) != 1 {
			continue
		}
		st := ""
		for n := range kinds {
			if strings.ToLower(n) == k {
				st = structOf(n)
			}
		}
		if st == "" {
			continue
		}
		// the first of the chain of the same functionality
		for l, v := range x.lits {
			if v || l.op != OpAssertOk || !isPtrTo(l.typ, pkgFn, st) {
				continue
			}
			f := x.find(l.args[0])
			for f.op == OpIface || f.op == OpAssert {
				f = x.find(f.args[0])
			}
			if f.op == OpCall && len(f.args) == 1 && c.madeByKind[baseName(f)] && a.args[0].contains(func(t *Term) bool {
				return t.op == OpCall && len(t.args) == 1 && x.find(t.args[0]) == x.find(f.args[0])
			}) {
				return true
			}
		}
	}
	return false
}

// errorMet tells whether a path is only taken when something reported an error.
func errorMet(x *Exec) bool {
	for l, v := range x.lits {
		if v || l.op != OpBin || l.aux != "==" {
			continue
		}
		for i := range l.args {
			if l.args[i].op == OpNil {
				o := l.args[1-i]
				if o.op == OpExtract && o.args[0].op == OpCall {
					return true
				}
				if o.op == OpCall && o.typ != nil && isError(o.typ) {
					return true
				}
			}
		}
	}
	return false
}

// placing describes what is being placed: the functionality and what is known
// of it, whatever the function is called.
func (w *regWalk) placing() string {
	x := w.x
	if w.kind != "unit" {
		return w.kind
	}
	for i, q := range w.root.Params {
		pt, ok := q.Type().(*types.Pointer)
		if !ok || !strings.Contains(structName(pt.Elem()), "/"+pkgFn+".") {
			continue
		}
		T, ok := types.Unalias(pt.Elem()).(*types.Named)
		if !ok {
			continue
		}
		f := x.params(w.root)[i]
		out := T.Obj().Name()
		if a := x.fieldByName(f, T, "IsArray"); a != nil {
			switch x.truth(x.find(a)) {
			case yes:
				out += " array"
			case no:
				out += " single"
			}
		}
		if a := x.fieldByName(f, T, "Atomic"); a != nil {
			switch x.truth(x.find(a)) {
			case yes:
				out += " atomic"
			case no:
				out += " non-atomic"
			}
		}
		if a := x.fieldByName(f, T, "Width"); a != nil {
			var bw *Term
			for g, what := range w.known {
				if strings.HasSuffix(what, "Width") {
					for t := range x.mem {
						if t.op == OpGlobal && strings.Contains(t.aux, g) {
							bw = x.mem[t].v
						}
					}
				}
			}
			if bw != nil && x.entails(plusC(w.poly(bw).add(w.poly(a), -1), 1)) {
				out += " wide"
			} else if bw != nil && x.entails(w.poly(a).add(w.poly(bw), -1)) {
				out += " narrow"
			}
		}
		return out
	}
	return w.kind
}

// notZero tells whether the facts of the path cannot hold when t is zero.
func (w *regWalk) notZero(t *Term) bool {
	x := w.x
	d := w.poly(t)
	if len(d.m) != 1 {
		return false
	}
	var at *Term
	for _, m := range d.m {
		if len(m.atoms) != 1 {
			return false
		}
		at = m.atoms[0]
	}
	for _, f := range x.facts {
		f = x.substPoly(f)
		g := polyConst(0)
		hit := false
		for k, m := range f.m {
			has := false
			for _, a := range m.atoms {
				has = has || a == at
			}
			if has {
				hit = true
				continue
			}
			g = g.add(&Poly{m: map[string]monomial{k: m}}, 1)
		}
		// what remains must be at most zero, and is not
		if hit && x.entails(plusC(neg(g), 1)) {
			return true
		}
	}
	return false
}

// baseTypes are the base types the language accepts.
func baseTypes(p *Prog) ([]string, *ssa.Function) {
	f := p.fn("internal/util", "IsBaseType")
	if f == nil || len(f.Params) != 1 {
		return nil, nil
	}
	// whatever text the function or the tables it reads mention
	texts := map[string]bool{}
	tables := map[*ssa.Global]bool{}
	add := func(in ssa.Instruction) {
		for _, o := range in.Operands(nil) {
			if o == nil || *o == nil {
				continue
			}
			switch o := (*o).(type) {
			case *ssa.Const:
				if o.Value != nil && o.Value.Kind() == constant.String {
					texts[constant.StringVal(o.Value)] = true
				}
			case *ssa.Global:
				tables[o] = true
			}
		}
	}
	for g := range p.reachWith(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				add(in)
			}
		}
	}
	if len(tables) > 0 && f.Pkg != nil {
		if ini := f.Pkg.Func("init"); ini != nil {
			for _, b := range ini.Blocks {
				for _, in := range b.Instrs {
					switch in.(type) {
					case *ssa.Store, *ssa.MapUpdate:
						add(in)
					}
				}
			}
		}
	}
	var out []string
	for s := range texts {
		if s != "" && !strings.ContainsAny(s, " %:/") {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out, f
}

// reachWith are f and the functions it calls, directly or not.
func (p *Prog) reachWith(f *ssa.Function) map[*ssa.Function]bool {
	m := p.reach(f)
	m[f] = true
	return m
}

// checkDispatch: the function that instantiates whatever its base type has a
// case for every base type.
func checkDispatch(p *Prog, r *Report) {
	bases, bf := baseTypes(p)
	if bf == nil {
		r.missing("the function that tells base types")
		return
	}
	r.ob("base-types", "accepted", len(bases) >= len(kinds), p.pos(bf.Pos()), "only %s are base types", strings.Join(bases, ", "))
	fns := insFuncs(p)
	for _, k := range bases {
		known := false
		for n := range kinds {
			known = known || strings.ToLower(n) == k
		}
		r.ob("base-types", k, known, p.pos(bf.Pos()), "%s is a base type that cannot be instantiated", k)
	}
	disp := dispatchers(p, fns)
	r.ob("dispatch", "function", len(disp) > 0, "-", "the function that instantiates by base type was not found")
	for _, f := range disp {
		pos := p.pos(f.Pos())
		var x *Exec
		isFn := func(g *ssa.Function) string {
			for k, h := range fns {
				if g == h {
					return k
				}
			}
			return ""
		}
		// facts about the base type
		is := func(t *Term) bool {
			return t.op == OpCall && strings.HasSuffix(baseName(t), ".Type")
		}
		baseKnown := func() (string, *Term) {
			for a, b := range x.rep {
				if k, ok := x.find(b).strVal(); ok && is(a) {
					return k, a
				}
			}
			return "", nil
		}
		excluded := func(k string) bool {
			for l, v := range x.lits {
				if v || l.op != OpBin || l.aux != "==" {
					continue
				}
				for i := range l.args {
					if s, ok := l.args[i].strVal(); ok && s == k && is(x.find(l.args[1-i])) {
						return true
					}
				}
			}
			if b, _ := baseKnown(); b != "" && b != k {
				return true
			}
			return false
		}
		handled := map[string]bool{}
		x = newExec(p, Hooks{
			OpaqueCall: func(x *Exec, g *ssa.Function, args []*Term) bool {
				return isFn(g) != "" || g != f && !inPkg(g, pkgIns)
			},
			Opaque: func(g *ssa.Function) bool { return isFn(g) != "" || g != f && !inPkg(g, pkgIns) },
			Panic: func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
				for _, k := range bases {
					r.ob("dispatch", k, excluded(k), p.pos(in.Pos()), "the base type %s reaches a panic: %s", k, what)
				}
			},
		})
		x.run(f, x.params(f), func(fr *Frame, res *Term) {
			var made []string
			for _, e := range x.events {
				if e.Kind == "call" && e.Fn != nil {
					for k, h := range fns {
						if calleeName(p, h) == e.Name {
							made = append(made, k)
						}
					}
				}
			}
			if len(made) == 0 {
				for _, k := range bases {
					r.ob("dispatch", k, excluded(k) || errorMet(x), pos, "nothing is instantiated for the base type %s", k)
				}
				return
			}
			b, _ := baseKnown()
			if b == "" {
				return
			}
			handled[b] = true
			for _, k := range made {
				r.ob("dispatch", b, structOf(k) == structOfBase(b), pos, "the base type %s is instantiated as %s", b, strings.ToLower(k))
			}
		})
		for _, k := range bases {
			r.ob("dispatch", k, handled[k], pos, "there is no case for the base type %s", k)
		}
		r.done(x, p.fname(f))
	}
}

func structOfBase(b string) string {
	for n := range kinds {
		if strings.ToLower(n) == b {
			return structOf(n)
		}
	}
	return ""
}

// dispatchers are the functions that choose among the instantiating functions.
func dispatchers(p *Prog, fns map[string]*ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, f := range p.funcs {
		if !instFunc(f) || len(f.Blocks) == 0 {
			continue
		}
		n := 0
		for g := range p.reach(f) {
			for _, h := range fns {
				if g == h {
					n++
				}
			}
		}
		if n > 3 {
			out = append(out, f)
		}
	}
	return out
}

// produced are the types of the repository that are ever put into an interface
// and fit the given one.
func produced(p *Prog, it *types.Interface) []types.Type {
	seen := map[string]types.Type{}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				mi, ok := in.(*ssa.MakeInterface)
				if !ok {
					continue
				}
				t := mi.X.Type()
				n, ok := types.Unalias(deref(t)).(*types.Named)
				if !ok || n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), p.mod) {
					continue
				}
				if types.Implements(t, it) {
					seen[t.String()] = t
				}
			}
		}
	}
	var out []types.Type
	for _, t := range seen {
		out = append(out, t)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// checkTypeSwitches: a function that tells the dynamic types of an argument
// apart knows every type that is ever made.
func checkTypeSwitches(p *Prog, r *Report) {
	n := 0
	for _, f := range p.funcs {
		if len(f.Blocks) == 0 || f.Synthetic != "" || f.Parent() != nil {
			continue
		}
		asked := map[*ssa.Parameter]map[string]bool{}
		panics := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.TypeAssert:
					q, ok := in.X.(*ssa.Parameter)
					if !ok || !in.CommaOk {
						continue
					}
					it, ok := q.Type().Underlying().(*types.Interface)
					if !ok || it.NumMethods() == 0 || inPkg(f, pkgIns) && isNamed(q.Type(), pkgFn, "Functionality") || !types.IsInterface(q.Type()) || !strings.Contains(q.Type().String(), p.mod) {
						continue
					}
					if asked[q] == nil {
						asked[q] = map[string]bool{}
					}
					asked[q][in.AssertedType.String()] = true
				case *ssa.Panic:
					panics = true
				}
			}
		}
		for q, as := range asked {
			if len(as) < 2 {
				continue
			}
			conv := converts(f, q)
			if !panics && !conv {
				continue
			}
			n++
			typeSwitch(p, r, f, q, conv)
		}
	}
	r.ob("kinds", "type switches", n > 0, "-", "no function that tells the kinds of something apart was found")
}

// converts tells whether a function makes something of another phase out of q.
func converts(f *ssa.Function, q *ssa.Parameter) bool {
	rs := f.Signature.Results()
	return rs.Len() == 2 && types.IsInterface(rs.At(0).Type()) && isError(rs.At(1).Type()) && isNamed(q.Type(), pkgAst, "Expr")
}

func typeSwitch(p *Prog, r *Report, f *ssa.Function, q *ssa.Parameter, conv bool) {
	U := produced(p, q.Type().Underlying().(*types.Interface))
	var x *Exec
	var v *Term
	fits := func(T types.Type) (in, out bool) {
		for l, t := range x.lits {
			if l.op != OpAssertOk || x.find(l.args[0]) != v || l.typ == nil {
				continue
			}
			if types.Identical(l.typ, T) {
				if t {
					in = true
				} else {
					out = true
				}
			} else if t {
				if it, ok := l.typ.Underlying().(*types.Interface); !ok || !types.Implements(T, it) {
					out = true
				}
			}
		}
		if dt := x.dynType(v); dt != nil {
			in, out = types.Identical(dt, T), !types.Identical(dt, T)
		}
		if v.op == OpNil {
			in, out = false, true
		}
		return
	}
	name := func(T types.Type) string { return p.fname(f) + " " + shortType(T) }
	x = newExec(p, Hooks{
		OpaqueCall: func(x *Exec, g *ssa.Function, args []*Term) bool { return true },
		Opaque:     func(g *ssa.Function) bool { return true },
		Panic: func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
			v = x.find(v)
			if x.quiet > 0 {
				return
			}
			for _, T := range U {
				_, out := fits(T)
				r.ob("kinds", name(T), out, p.pos(in.Pos()), "a %s reaches a panic: %s", shortType(T), what)
			}
		},
	})
	ps := x.params(f)
	for i, a := range f.Params {
		if a == q {
			v = ps[i]
		}
	}
	self := v
	x.run(f, ps, func(fr *Frame, res *Term) {
		v = x.find(self)
		if !conv {
			return
		}
		if !succeeded(x, f, res) {
			return
		}
		out0 := x.find(x.extract(res, 0))
		for _, T := range U {
			in, out := fits(T)
			if out {
				continue
			}
			r.ob("kinds", name(T), in && out0.op != OpNil, p.pos(f.Pos()), "nothing is made of a %s", shortType(T))
		}
	})
	r.ob("kinds", p.fname(f), len(U) > 1, p.pos(f.Pos()), "what is given to %s was not found", f.Name())
	r.done(x, p.fname(f))
}

func init() {
	checks["C09"] = func(p *Prog, r *Report) {
		r.explain = "every dispatch over base types, expression kinds, functions and functionalities, with the set of what can reach it"
		checkDispatch(p, r)
		checkTypeSwitches(p, r)
		runIns(p, r)
		(&madeCheck{p: p, r: r}).run()
		checkReg(p, r, "C09")
		sub := newReport("C19", r.tier, p)
		checkExpr(p, sub)
		for _, k := range sub.order {
			if o := sub.obs[k]; o.Rule == "no-panic" || o.Rule == "function" {
				r.ob(o.Rule, o.Construct, o.OK, o.Pos, "%s", o.Msg)
			}
		}
		r.floor("dispatch", 13)
		r.floor("kinds", 10)
	}
}
