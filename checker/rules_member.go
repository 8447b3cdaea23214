package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Members of a functionality: which are let in (C20) and under which names (C08).

// memberLists lists the slices of functionalities of a structure of package fn.
func memberLists(T *types.Named) (names []string, elems []string) {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if s, ok := f.Type().Underlying().(*types.Slice); ok {
			for k := range kinds {
				if k != "Bus" && isPtrTo(s.Elem(), pkgFn, k) {
					names = append(names, f.Name())
					elems = append(elems, k)
				}
			}
		}
	}
	return
}

// compatible members of a group.
func compatible(a, b string) bool {
	plain := func(k string) bool { return k == "Config" || k == "Mask" || k == "Static" || k == "Status" }
	return a == b || plain(a) && plain(b)
}

// inserted is called before a list of members is replaced.
func (c *insCheck) inserted(x *Exec, addr, v *Term) {
	list := c.attrOf(addr)
	if list == "" || v.op != OpAppend {
		return
	}
	p := c.p
	T := p.named(pkgFn, structOf(c.kind))
	names, elems := memberLists(T)
	kind := ""
	for i, n := range names {
		if n == list {
			kind = elems[i]
		}
	}
	if kind == "" {
		return
	}
	pos := p.pos(c.fn.Pos())
	c.inner[kind]++
	x.event(Event{Kind: "insert", Name: kind})
	what := strings.ToLower(kind)
	c.ob("C20", "inner-allowed", what, inList(kinds[c.kind].inner, kind), pos, "a %s can be put into a %s", what, strings.ToLower(c.kind))
	obj := addr.args[0]
	same := v.args[0] == x.find(x.load(addr, p.fieldType(addr.aux)))
	c.ob("C20", "inner-kept", what, same && v.aux == "" && len(v.args) == 2, pos, "adding a %s does not keep the ones added before", what)
	if len(v.args) != 2 {
		return
	}
	el := x.find(v.args[1])
	src := el
	if src.op == OpAssert {
		src = src.args[0]
	}
	ok := src.op == OpCall || src.op == OpExtract && src.args[0].op == OpCall
	c.ob("C20", "inner-is-instance", what, ok, pos, "what is added as %s is not what was instantiated: %s", what, short(el))
	// block and bus share a structure
	if kind == "Block" {
		base := false
		for l := range x.lits {
			l.contains(func(t *Term) bool {
				if t.op == OpCall && strings.HasPrefix(t.aux, "prs.Functionality.Type") && x.truth(x.ts.Bin(token.EQL, t, x.ts.Str("bus"), false)) == no {
					base = base || c.isBaseOf(x, t.args[0], src)
				}
				return false
			})
		}
		c.ob("C20", "inner-allowed", "bus", base, pos, "a bus is not kept out of a block: the base type is not looked at")
	}
	// compatible members only
	if c.kind == "Group" || c.kind == "Stream" {
		for i, n := range names {
			if n == list || c.kind == "Group" && compatible(kind, elems[i]) {
				continue
			}
			l := x.length(x.find(x.fieldByName(obj, T, n)))
			empty := x.provesLE0(x.ts.Poly(l))
			c.ob("C20", "incompatible", what+" with "+strings.ToLower(elems[i]), empty, pos, "a %s can be added to a %s that has a %s", what, strings.ToLower(c.kind), strings.ToLower(elems[i]))
		}
	}
	// unique name
	cands := map[*Term]bool{}
	for l := range x.lits {
		l.contains(func(t *Term) bool {
			if t.op == OpCall && strings.Contains(t.aux, "GetName") && len(t.args) == 1 && (x.find(t.args[0]) == el || x.find(t.args[0]) == src || peel(x.find(t.args[0])) == el) {
				cands[t] = true
			}
			return false
		})
	}
	nameOf := func(e *Term, kind string) *Term {
		return x.fieldByName(e, p.named(pkgFn, kind), "Name")
	}
	cands[nameOf(el, kind)] = true
	for _, fa := range x.foralls {
		for l := range fa.lits {
			l.contains(func(t *Term) bool {
				if t.op == OpCall && strings.Contains(t.aux, "GetName") && len(t.args) == 1 && (x.find(t.args[0]) == el || x.find(t.args[0]) == src) {
					cands[t] = true
				}
				return false
			})
		}
	}
	for i, n := range names {
		m := x.mark()
		lst := x.find(x.fieldByName(obj, T, n))
		st, _ := p.fieldType(structName(T) + ":" + n).Underlying().(*types.Slice)
		j := x.ts.fresh(OpSym, "j", nil)
		x.assumeLE0(polyConst(0).add(polyAtom(j), -1))
		x.assume(x.ts.Bin(token.LSS, j, x.length(lst), false), true)
		other := nameOf(x.loadElem(lst, j, st.Elem()), elems[i])
		unique := x.provesLE0(x.ts.Poly(x.length(lst)))
		for cd := range cands {
			if x.truth(x.ts.Bin(token.EQL, other, cd, false)) == no {
				unique = true
			}
		}
		x.undo(m)
		c.ob("C08", "unique-member", what+" against "+n, unique, pos, "a %s can be added although %s may hold a functionality of that name", what, n)
	}
}

// isBaseOf: t is the head of the type chain of the symbol src was made of.
func (c *insCheck) isBaseOf(x *Exec, t, src *Term) bool {
	if t.op != OpLoad || t.args[0].op != OpIndexAddr || !x.same(t.args[0].args[1], x.ts.Int(0)) {
		return false
	}
	chain := t.args[0].args[0]
	if chain.op == OpExtract {
		chain = chain.args[0]
	}
	if src.op == OpExtract {
		src = src.args[0]
	}
	return chain.op == OpCall && src.op == OpCall && len(chain.args) > 0 && len(src.args) > 0 && x.find(chain.args[0]) == x.find(src.args[0])
}

// constSet is called before a constant is stored.
func (c *insCheck) constSet(x *Exec, m, k *Term) {
	p := c.p
	T := p.named("pkg/fbdl/cnst", "Container")
	if T == nil {
		return
	}
	m = x.find(m)
	if m.op == OpLoad && !strings.Contains(m.args[0].aux, "cnst.Container:") {
		return
	}
	if m.op != OpLoad {
		// a fresh map, which is the one of the container
		for a, cell := range x.mem {
			if a.op == OpFieldAddr && strings.Contains(a.aux, "cnst.Container:") && x.find(cell.v) == m {
				x.event(Event{Kind: "const"})
				break
			}
		}
		return
	}
	cont := m.args[0].args[0]
	st := T.Underlying().(*types.Struct)
	pos := p.pos(c.fn.Pos())
	for i := 0; i < st.NumFields(); i++ {
		om := x.find(x.load(x.FieldAddr(cont, T, i), st.Field(i).Type()))
		ok := om.op == OpNil
		for l, t := range x.lits {
			if !t && l.op == OpLookupOk && x.find(l.args[0]) == om && x.find(l.args[1]) == x.find(k) {
				ok = true
			}
		}
		c.ob("C08", "unique-const", st.Field(i).Name(), ok, pos, "a constant is added although %s may hold one of that name", st.Field(i).Name())
	}
	x.event(Event{Kind: "const"})
	c.inner["const"]++
}

// memberEdge: an instantiation met in a list of symbols must have been added.
func (c *insCheck) memberEdge(x *Exec, fr *Frame, lc *loopCtx) {
	var isInst, isConst bool
	for l, t := range x.lits {
		if l.op != OpAssertOk || !t || !l.args[0].has(lc.k) {
			continue
		}
		if isPtrTo(l.typ, pkgPrs, "Inst") {
			isInst = true
		}
		if isPtrTo(l.typ, pkgPrs, "Const") {
			isConst = true
		}
	}
	ins := 0
	consts := 0
	for _, e := range x.events[lc.evMark:] {
		switch e.Kind {
		case "insert":
			ins++
		case "const":
			consts++
		}
	}
	pos := c.p.pos(lc.header.Instrs[0].Pos())
	if isInst {
		c.ob("C20", "inner-added", "instances", ins == 1, pos, "an instantiation is added %d times", ins)
		c.ob("C09", "inner-added", "instances", ins == 1, pos, "an instantiation is added %d times", ins)
	}
	if isConst && len(c.constLists()) > 0 {
		c.ob("C09", "const-added", "constants", consts >= 1, pos, "a constant is not added")
	}
}

func (c *insCheck) constLists() []string {
	T := c.p.named(pkgFn, structOf(c.kind))
	st := T.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Consts" {
			return []string{"Consts"}
		}
	}
	return nil
}

// memberReturn judges what holds of the members of a finished functionality.
func (c *insCheck) memberReturn(x *Exec, obj *Term) {
	if c.kind != "Group" {
		return
	}
	p := c.p
	T := p.named(pkgFn, "Group")
	pos := p.pos(c.fn.Pos())
	if x.truth(x.find(x.fieldByName(obj, T, "Virtual"))) != no {
		for _, n := range []string{"Irqs", "Params", "Returns"} {
			l := x.length(x.find(x.fieldByName(obj, T, n)))
			c.ob("C20", "virtual", n, x.provesLE0(x.ts.Poly(l)), pos, "a virtual group may have %s", n)
		}
	}
	irqs := x.find(x.fieldByName(obj, T, "Irqs"))
	n := x.length(irqs)
	if !x.provesLE0(x.ts.Poly(n)) {
		m := x.mark()
		I := p.named(pkgFn, "Irq")
		pt := types.NewPointer(I)
		j := x.ts.fresh(OpSym, "j", nil)
		x.assumeLE0(polyConst(0).add(polyAtom(j), -1))
		j1 := x.ts.Bin(token.ADD, j, x.ts.Int(1), false)
		x.assume(x.ts.Bin(token.LSS, j1, n, false), true)
		a := x.fieldByName(x.loadElem(irqs, j1, pt), I, "OutTrigger")
		b := x.fieldByName(x.loadElem(irqs, x.ts.Int(0), pt), I, "OutTrigger")
		ok := x.truth(x.ts.Bin(token.EQL, a, b, false)) == yes
		x.undo(m)
		c.ob("C20", "irq-triggers", "out-trigger", ok, pos, "irqs of one group may have different output triggers")
	}
}

func (c *insCheck) memberJudge() {
	pos := c.p.pos(c.fn.Pos())
	for _, k := range kinds[c.kind].inner {
		c.ob("C20", "inner-accepted", strings.ToLower(k), c.inner[k] > 0, pos, "a %s cannot be put into a %s", strings.ToLower(k), strings.ToLower(c.kind))
		c.ob("C08", "inner-accepted", strings.ToLower(k), c.inner[k] > 0, pos, "a %s cannot be put into a %s", strings.ToLower(k), strings.ToLower(c.kind))
	}
	if len(c.constLists()) > 0 {
		c.ob("C08", "const-accepted", "const", c.inner["const"] > 0, pos, "no constant can be put into a %s", strings.ToLower(c.kind))
	}
}

// checkGetName: GetName answers the name.
func checkGetName(p *Prog, r *Report) {
	n := 0
	for _, f := range p.funcs {
		if !inPkg(f, pkgFn) || f.Name() != "GetName" || f.Signature.Recv() == nil || len(f.Blocks) == 0 {
			continue
		}
		n++
		x := newExec(p, Hooks{})
		x.run(f, x.params(f), func(fr *Frame, res *Term) {
			ok := res.op == OpField && strings.HasSuffix(res.aux, ":Name") || res.op == OpLoad && strings.HasSuffix(res.args[0].aux, ":Name")
			r.ob("get-name", p.fname(f), ok, p.pos(f.Pos()), "GetName answers %s", res)
		})
		r.done(x, p.fname(f))
	}
	if n == 0 {
		r.missing("GetName of functionalities")
	}
}

var _ = ssa.BuilderMode(0)
