package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11: the access descriptors.

var accessFields = []string{"Type", "RegCount", "RegWidth", "ItemCount", "ItemWidth", "StartAddr", "EndAddr", "StartBit", "EndBit", "StartRegWidth", "EndRegWidth"}

// accessType is the struct of the access descriptors.
func accessType(p *Prog) types.Type {
	if n := p.named(pkgTypes, "Access"); n != nil {
		return n
	}
	return nil
}

// makers lists the functions that make a descriptor out of integers.
func makers(p *Prog) []*ssa.Function {
	at := accessType(p)
	var out []*ssa.Function
	for _, f := range p.funcs {
		if at == nil || !inPkg(f, pkgTypes) || f.Signature.Recv() != nil || f.Signature.Results().Len() != 1 || f.Object() == nil || !f.Object().Exported() {
			continue
		}
		if !types.Identical(f.Signature.Results().At(0).Type(), at) {
			continue
		}
		ints := true
		for i := 0; i < f.Signature.Params().Len(); i++ {
			ints = ints && isInteger(f.Signature.Params().At(i).Type())
		}
		if n := f.Signature.Params().Len(); ints && (n == 3 || n == 4) {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return p.fname(out[i]) < p.fname(out[j]) })
	return out
}

// access is a descriptor with polynomials for its numbers.
type access struct {
	typ string
	f   map[string]*Poly
}

func (x *Exec) accessOf(t *Term, at types.Type) (access, bool) {
	a := access{f: map[string]*Poly{}}
	st := at.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		v := x.find(x.Field(t, at, i))
		if n := st.Field(i).Name(); n == "Type" {
			s, ok := v.strVal()
			if !ok {
				return a, false
			}
			a.typ = s
		} else {
			a.f[n] = x.substPoly(x.ts.Poly(v))
		}
	}
	for _, n := range accessFields[1:] {
		if a.f[n] == nil {
			return a, false
		}
	}
	return a, true
}

// request is what a descriptor was asked for.
type request struct {
	count, addr, startBit, width, bw *Poly
	array                            bool
}

func minus(p, q *Poly) *Poly       { return p.add(q, -1) }
func plus(p, q *Poly) *Poly        { return p.add(q, 1) }
func plusC(p *Poly, c int64) *Poly { return p.add(polyConst(c), 1) }

// divPoly divides exactly by a single monomial.
func divPoly(p, d *Poly) (*Poly, bool) {
	if len(d.m) != 1 {
		return nil, false
	}
	var dm monomial
	for _, v := range d.m {
		dm = v
	}
	out := polyConst(0)
	for _, v := range p.m {
		c, ok := divMon(v, dm)
		if !ok {
			return nil, false
		}
		out = out.add(&Poly{m: map[string]monomial{monKey(c.atoms): c}}, 1)
	}
	return out, true
}

// roleOf names the parameters of a maker by their position.
func roleOf(f *ssa.Function, ps []*Poly, bw *Poly) request {
	one := polyConst(1)
	if len(ps) == 4 {
		return request{ps[0], ps[1], ps[2], ps[3], bw, true}
	}
	if strings.Contains(f.Name(), "Array") {
		return request{ps[0], ps[1], polyConst(0), ps[2], bw, true}
	}
	return request{one, ps[0], ps[1], ps[2], bw, false}
}

// judgeAccess checks the descriptor a against the request q. With zero the
// request has no bits at all.
func judgeAccess(x *Exec, a access, q request, zero bool, say func(rule string, ok bool, format string)) {
	f := a.f
	total := q.count.mul(q.width)
	eq := func(rule, msg string, p, r *Poly) { say(rule, x.entailsEq(minus(p, r)), msg) }
	eq("reg-width", "the register width is not the width of the bus", f["RegWidth"], q.bw)
	eq("item-count", "the item count is not the requested one", f["ItemCount"], q.count)
	eq("item-width", "the item width is not the requested one", f["ItemWidth"], q.width)
	eq("start-addr", "the start address is not the requested one", f["StartAddr"], q.addr)
	eq("reg-span", "the span of addresses does not contain the stated number of registers", plusC(minus(f["EndAddr"], f["StartAddr"]), 1), f["RegCount"])
	eq("start-bit", "the start bit is not the requested one", f["StartBit"], q.startBit)
	inReg := func() {
		say("end-bit-range", x.entails(minus(plusC(f["EndBit"], 1), q.bw)), "the end bit may lie outside the register")
		if !zero {
			say("end-bit-range", x.entails(polyConst(0).add(f["EndBit"], -1)), "the end bit may be negative")
		}
	}
	inReg()
	if zero {
		say("reg-count", x.entails(polyConst(0).add(f["RegCount"], -1)), "the number of registers may be negative")
		return
	}
	say("reg-count", x.entails(plusC(polyConst(0).add(f["RegCount"], -1), 1)), "the number of registers may be below 1")
	switch a.typ {
	case "SingleOneReg", "ArrayOneReg":
		eq("reg-count", "an access in one register has another number of registers", f["RegCount"], polyConst(1))
		eq("end-bit", "start and end bit do not enclose the items", minus(f["EndBit"], f["StartBit"]), plusC(total, -1))
		eq("start-reg-width", "the occupied width of the first register is wrong", f["StartRegWidth"], total)
		eq("end-reg-width", "the occupied width of the last register is wrong", f["EndRegWidth"], total)
	case "SingleNRegs", "ArrayNRegs":
		eq("end-bit", "the registers do not hold exactly the bits of the items", plus(f["EndBit"], q.bw.mul(plusC(f["RegCount"], -1))), plusC(plus(f["StartBit"], total), -1))
		one := x.entailsEq(plusC(f["RegCount"], -1))
		more := x.entails(plusC(polyConst(0).add(f["RegCount"], -1), 2))
		first, last := minus(q.bw, f["StartBit"]), plusC(f["EndBit"], 1)
		s := one && x.entailsEq(minus(f["StartRegWidth"], total)) || more && x.entailsEq(minus(f["StartRegWidth"], first))
		e := one && x.entailsEq(minus(f["EndRegWidth"], total)) || more && x.entailsEq(minus(f["EndRegWidth"], last))
		say("start-reg-width", s, "the occupied width of the first register is wrong")
		say("end-reg-width", e, "the occupied width of the last register is wrong")
	case "ArrayOneInReg":
		eq("reg-count", "there is not one register per item", f["RegCount"], q.count)
		eq("end-bit", "start and end bit do not enclose one item", minus(f["EndBit"], f["StartBit"]), plusC(q.width, -1))
		eq("start-reg-width", "the occupied width of the first register is wrong", f["StartRegWidth"], q.width)
		eq("end-reg-width", "the occupied width of the last register is wrong", f["EndRegWidth"], q.width)
	case "ArrayNInReg", "ArrayNInRegMInEndReg":
		m, ok2 := divPoly(f["EndRegWidth"], q.width)
		say("end-reg-width", ok2, "the occupied width of the last register is no multiple of the item width")
		if !ok2 {
			return
		}
		eq("end-bit", "the end bit does not fit the items in the last register", f["EndBit"], plusC(m.mul(q.width), -1))
		one := x.entailsEq(plusC(f["RegCount"], -1))
		if one {
			eq("start-reg-width", "the occupied width of the only register is wrong", f["StartRegWidth"], f["EndRegWidth"])
			eq("item-count", "the register does not hold all items", m, q.count)
			return
		}
		n, ok := divPoly(f["StartRegWidth"], q.width)
		say("start-reg-width", ok, "the occupied width of the first register is no multiple of the item width")
		if !ok {
			return
		}
		say("start-reg-width", x.entails(minus(f["StartRegWidth"], q.bw)), "the first register is overfull")
		eq("item-count", "the registers do not hold all items", plus(n.mul(plusC(f["RegCount"], -1)), m), q.count)
		say("end-reg-width", x.entails(minus(m, n)), "the last register holds more items than the others")
		if a.typ == "ArrayNInReg" {
			eq("end-reg-width", "the last register is not filled like the others", m, n)
		}
		more := x.entails(plusC(polyConst(0).add(f["RegCount"], -1), 2))
		say("start-reg-width", more || x.entailsEq(minus(m, n)), "the first and only register has a different width")
	case "ArrayOneInNRegs":
		r, ok := divPoly(f["RegCount"], q.count)
		say("reg-count", ok, "the number of registers is no multiple of the item count")
		if !ok {
			return
		}
		say("reg-count", x.entails(minus(q.width, q.bw.mul(r))), "the registers of an item are too few")
		say("reg-count", x.entails(plusC(minus(q.bw.mul(plusC(r, -1)), q.width), 1)), "the registers of an item are too many")
		eq("end-bit", "the end bit does not fit the item", f["EndBit"], plusC(minus(q.width, q.bw.mul(plusC(r, -1))), -1))
		eq("start-reg-width", "the occupied width of the first register is wrong", f["StartRegWidth"], q.bw)
		eq("end-reg-width", "the occupied width of the last register is wrong", f["EndRegWidth"], plusC(f["EndBit"], 1))
	default:
		say("access-type", false, "unknown kind of access '"+a.typ+"'")
	}
}

// quotLemmas compares quotients with the same divisor.
func (x *Exec) quotLemmas() {
	var qs []*Term
	seen := map[*Term]bool{}
	var walk func(p *Poly)
	walk = func(p *Poly) {
		for _, m := range p.m {
			for _, a := range m.atoms {
				if a.op == OpQuot && !seen[a] {
					seen[a] = true
					qs = append(qs, a)
					walk(x.ts.Poly(a.args[0]))
					walk(x.ts.Poly(a.args[1]))
				}
			}
		}
	}
	for _, f := range x.facts {
		walk(x.substPoly(f))
	}
	for l := range x.lits {
		if l.op == OpBin && len(l.args) == 2 && (l.aux == "==" || l.aux == "<") && x.isNumeric(l.args[0]) && x.isNumeric(l.args[1]) {
			walk(x.substPoly(minus(x.ts.Poly(l.args[0]), x.ts.Poly(l.args[1]))))
		}
	}
	for t := range x.ts.quots {
		if !seen[t] {
			seen[t] = true
			qs = append(qs, t)
		}
	}
	sort.Slice(qs, func(i, j int) bool { return qs[i].id < qs[j].id })
	for i := range qs {
		for j := range qs {
			if i == j || qs[i].args[1] != qs[j].args[1] {
				continue
			}
			d := minus(polyAtom(qs[i]), polyAtom(qs[j]))
			for c := int64(0); c <= 1; c++ {
				e := plusC(d, -c)
				if x.entailsEq(e) {
					x.addFact(e)
					x.addFact(polyConst(0).add(e, -1))
				}
			}
		}
	}
}

// makerNeeds are the conditions p <= 0 a maker is only called under.
func makerNeeds(f *ssa.Function, q request) []*Poly {
	out := []*Poly{
		polyConst(0).add(q.startBit, -1),
		plusC(minus(q.startBit, q.bw), 1),
		polyConst(0).add(q.width, -1),
		polyConst(0).add(q.count, -1),
	}
	switch {
	case strings.Contains(f.Name(), "SingleNRegs"):
		out = append(out, plusC(minus(minus(q.bw, q.startBit), q.width), 1))
	case strings.Contains(f.Name(), "InReg") && !strings.Contains(f.Name(), "OneInReg"):
		out = append(out, plusC(polyConst(0).add(q.width, -1), 1), minus(q.width, q.bw))
	}
	return out
}

// walkMaker walks the maker f for the requests of one kind: "items", "width 0"
// or "no items".
func walkMaker(p *Prog, f *ssa.Function, kind string, extra func(q request) *Poly, each func(x *Exec, a access, q request, ok bool), panics func(x *Exec, params []*Term, in ssa.Instruction)) *Exec {
	at := accessType(p)
	bwG := p.global(pkgTypes, "busWidth")
	x := newExec(p, Hooks{})
	x.linear = true
	var ps []*Poly
	var args []*Term
	for _, a := range x.params(f) {
		args = append(args, a)
		ps = append(ps, polyAtom(a))
	}
	bw := polyAtom(x.load(x.ts.mk(OpGlobal, bwG.String(), nil), types.Typ[types.Int64]))
	q := roleOf(f, ps, bw)
	feasible := x.assumeLE0(plusC(polyConst(0).add(bw, -1), 1))
	le := func(p *Poly) { feasible = feasible && x.assumeLE0(p) }
	le(polyConst(0).add(q.addr, -1))
	for _, n := range makerNeeds(f, q) {
		le(n)
	}
	kind, at0, more := strings.Cut(kind, " at ")
	switch {
	case more && at0 == "0":
		le(q.startBit)
	case more:
		le(plusC(polyConst(0).add(q.startBit, -1), 1))
	}
	switch kind {
	case "items":
		le(plusC(polyConst(0).add(q.width, -1), 1))
		le(plusC(polyConst(0).add(q.count, -1), 1))
	case "width 0":
		le(q.width)
	case "no items":
		le(q.count)
	}
	if extra != nil {
		le(extra(q))
	}
	if !feasible || x.contradicted() {
		return x
	}
	x.h.Panic = func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
		if panics != nil {
			panics(x, args, in)
		}
	}
	x.run(f, args, func(fr *Frame, res *Term) {
		a, ok := x.accessOf(x.find(res), at)
		each(x, a, q, ok)
	})
	return x
}

func checkAccess(p *Prog, r *Report) {
	if accessType(p) == nil || p.global(pkgTypes, "busWidth") == nil {
		r.missing("the access descriptor and the bus width of package types")
		return
	}
	for _, f := range makers(p) {
		r.funcs[p.fname(f)] = true
		for _, kind := range []string{"items", "width 0", "no items"} {
			name := f.Name() + ", " + kind
			pos := p.pos(f.Pos())
			x := walkMaker(p, f, kind, nil, func(x *Exec, a access, q request, ok bool) {
				r.ob("descriptor", name, ok, pos, "the descriptor made cannot be followed")
				if ok {
					x.quotLemmas()
					judgeAccess(x, a, q, kind != "items", func(rule string, ok bool, msg string) {
						r.ob(rule, name+", "+a.typ, ok, pos, "%s", msg)
					})
				}
			}, nil)
			r.done(x, name)
		}
	}
	r.floor("descriptor", 12)
	for _, rule := range []string{"reg-width", "item-count", "item-width", "start-addr", "reg-span", "start-bit", "end-bit", "start-reg-width", "end-reg-width"} {
		r.floor(rule, 8)
	}
	checkReg(p, r, "C11")
}

func init() {
	checks["C11"] = checkAccess
	for _, c := range []string{"C12", "C13", "C14"} {
		c := c
		checks[c] = func(p *Prog, r *Report) {
			checkReg(p, r, c)
			if c == "C14" || c == "C12" {
				checkPool(p, r)
			}
		}
	}
}
