package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C11 to C14: registers, gaps and address spaces.
//
// Every path of the registerification is walked with symbolic functionalities.
// What is placed is kept as intervals of bits: the bit b of the register a is
// at a*busWidth+b. Each loop that places something needs a cursor, a quantity
// carried round the loop, such that each iteration stays between the old and
// the new value of the cursor or inside a gap handed to it.

const (
	pkgGap  = "internal/gap"
	pkgUtil = "internal/util"
)

// ---- what makers promise ----

type makerFact struct {
	name  string
	guard func(q request) *Poly // only if this is <= 0
	p     func(a access, q request) *Poly
}

func neg(p *Poly) *Poly { return polyConst(0).add(p, -1) }

func bothWays(name string, p func(a access, q request) *Poly) []makerFact {
	return []makerFact{
		{name: name + " <=", p: p},
		{name: name + " >=", p: func(a access, q request) *Poly { return neg(p(a, q)) }},
	}
}

func fieldIs(field string, of func(q request) *Poly) []makerFact {
	return bothWays(field, func(a access, q request) *Poly { return minus(a.f[field], of(q)) })
}

func makerFacts() []makerFact {
	var out []makerFact
	out = append(out, fieldIs("StartAddr", func(q request) *Poly { return q.addr })...)
	out = append(out, fieldIs("StartBit", func(q request) *Poly { return q.startBit })...)
	out = append(out, fieldIs("ItemCount", func(q request) *Poly { return q.count })...)
	out = append(out, fieldIs("ItemWidth", func(q request) *Poly { return q.width })...)
	out = append(out, fieldIs("RegWidth", func(q request) *Poly { return q.bw })...)
	out = append(out, bothWays("span", func(a access, q request) *Poly {
		return minus(plusC(minus(a.f["EndAddr"], a.f["StartAddr"]), 1), a.f["RegCount"])
	})...)
	hull := func(a access, q request) *Poly {
		return plusC(plus(a.f["EndBit"], q.bw.mul(plusC(a.f["RegCount"], -1))), 1)
	}
	out = append(out, bothWays("hull", func(a access, q request) *Poly {
		return minus(hull(a, q), plus(q.startBit, q.count.mul(q.width)))
	})...)
	out = append(out,
		makerFact{name: "hull not negative", p: func(a access, q request) *Poly { return minus(q.startBit, hull(a, q)) }},
		makerFact{name: "one register", p: func(a access, q request) *Poly { return plusC(neg(a.f["RegCount"]), 1) }},
		makerFact{name: "registers", p: func(a access, q request) *Poly { return neg(a.f["RegCount"]) }},
		makerFact{name: "end bit", p: func(a access, q request) *Poly { return plusC(minus(a.f["EndBit"], q.bw), 1) }},
		makerFact{name: "end bit low", p: func(a access, q request) *Poly { return plusC(neg(a.f["EndBit"]), -1) }},
		makerFact{name: "one register when fitting", guard: func(q request) *Poly {
			return minus(plus(q.startBit, q.count.mul(q.width)), q.bw)
		}, p: func(a access, q request) *Poly { return plusC(a.f["RegCount"], -1) }},
	)
	return out
}

// makerPanic is a condition under which a maker panics.
type makerPanic struct {
	pos   string
	lits  map[*Term]bool
	facts []*Poly
	args  []*Term
}

type maker struct {
	f     *ssa.Function
	holds map[string]bool
}

// learnMakers finds out which facts hold for the results of all paths of the
// makers.
func learnMakers(p *Prog) map[*ssa.Function]*maker {
	out := map[*ssa.Function]*maker{}
	facts := makerFacts()
	for _, f := range makers(p) {
		m := &maker{f: f, holds: map[string]bool{}}
		for _, c := range facts {
			m.holds[c.name] = true
		}
		kinds := []string{"items", "width 0 at 0", "width 0 at 1 or later", "no items at 0", "no items at 1 or later"}
		for _, kind := range kinds {
			x := walkMaker(p, f, kind, nil, func(x *Exec, a access, q request, ok bool) {
				if ok {
					x.quotLemmas()
				}
				for _, c := range facts {
					if c.guard == nil && m.holds[c.name] && !(ok && x.entails(c.p(a, q))) {
						m.holds[c.name] = false
					}
				}
			}, nil)
			if x.fail != "" {
				m.holds = map[string]bool{}
			}
			for _, c := range facts {
				if c.guard == nil || !m.holds[c.name] {
					continue
				}
				x := walkMaker(p, f, kind, c.guard, func(x *Exec, a access, q request, ok bool) {
					if ok {
						x.quotLemmas()
					}
					if m.holds[c.name] && !(ok && x.entails(c.p(a, q))) {
						m.holds[c.name] = false
					}
				}, nil)
				if x.fail != "" {
					m.holds[c.name] = false
				}
			}
		}
		out[f] = m
	}
	return out
}

// ---- the walk ----

type madeBy struct {
	m      *maker
	fields map[string]*Term
}

type regWalk struct {
	p    *Prog
	x    *Exec
	ob   func(prop, rule, construct string, ok bool, pos, msg string)
	root *ssa.Function
	blk  *Term
	kind string

	makers map[*ssa.Function]*maker
	made   map[*Term]*madeBy
	found  map[*Term][]*Poly
	cut    map[*ssa.Function]string // functions walked on their own: "sizer", "addresser"
	units  map[*ssa.Function]bool   // functions that place one functionality, walked on their own
	known  map[string]string        // process wide integers and the attribute of the bus they hold
	gaps   bool                     // all gaps end with their register

	choice  map[string]string
	dead    map[string]map[string]int
	places  map[string]bool
	gapEnd  bool // some gap does not end with its register
	nPlace  int
	writes  map[*ssa.Store]bool
	ends    int
	lists   map[string]*Term // the lists of the block at the start
	sum     *Term            // what the sub-blocks take, in the addresser
	base    *Term
	pools   map[*Term]bool // the pools handed to a unit
	judged  bool           // the cursors are known, what is found counts
	chained []region       // the spans, each after the one before
}

type carried struct {
	name       string
	phi        *ssa.Phi
	cell       *Term
	entry, gen *Term
}

type loopUser struct {
	key     string
	vars    []carried
	placed  map[*Term]bool // lists whose element every iteration places
	seen    int            // back edges
	idx     map[*Term]*Poly
	distr   map[*Term][]*ssa.Phi
	filter  map[*ssa.Phi]*filtering
	sums    map[string]string // carried integer: what it adds up
	sumOf   map[string]*Term  // the list summed over
	nest    map[string]*Term  // cursor of address spaces: the list they go to
	nestOff map[string]int64  // and how far the base is from the cursor
}

func shortAux(aux string) (string, string) {
	i := strings.LastIndex(aux, "/")
	s, f, _ := strings.Cut(aux[i+1:], ":")
	return s, f
}

// fieldOf splits the address of a field.
func fieldOf(a *Term) (base *Term, st, field string, ok bool) {
	if a.op != OpFieldAddr {
		return nil, "", "", false
	}
	st, field = shortAux(a.aux)
	return a.args[0], st, field, true
}

func (w *regWalk) fnType(st string) *types.Struct {
	n, ok := strings.CutPrefix(st, "fn.")
	if !ok {
		return nil
	}
	if t := w.p.named(pkgFn, n); t != nil {
		s, _ := t.Underlying().(*types.Struct)
		return s
	}
	return nil
}

// fieldTerm reads a field of a functionality, looking into embedded structs.
func (w *regWalk) fieldTerm(owner *Term, st, field string) *Term {
	n := w.p.named(pkgFn, strings.TrimPrefix(st, "fn."))
	if n == nil {
		return nil
	}
	obj, index, _ := types.LookupFieldOrMethod(n, true, n.Obj().Pkg(), field)
	v, ok := obj.(*types.Var)
	if !ok {
		return nil
	}
	a := owner
	var t types.Type = n
	for _, i := range index {
		a = w.x.FieldAddr(a, t, i)
		t = t.Underlying().(*types.Struct).Field(i).Type()
	}
	return w.x.load(a, v.Type())
}

func (w *regWalk) global(rel, name string) *Term {
	g := w.p.global(rel, name)
	if g == nil {
		return nil
	}
	return w.x.ts.mk(OpGlobal, g.String(), nil)
}

func (w *regWalk) bw() *Poly {
	t := w.x.load(w.global(pkgTypes, "busWidth"), types.Typ[types.Int64])
	return w.x.substPoly(w.x.ts.Poly(t))
}

func (w *regWalk) poly(t *Term) *Poly { return w.x.substPoly(w.x.ts.Poly(t)) }

func (w *regWalk) evTerm(p *Poly) *Term { return w.x.ts.polyTerm(p) }

// subst answers calls of makers and of the gap pool by what they promise.
func (w *regWalk) subst(x *Exec, name string, f *ssa.Function, args []*Term) *Term {
	if f == nil {
		return nil
	}
	if m := w.makers[f]; m != nil {
		return w.make(m, args)
	}
	if inPkg(f, pkgGap) && f.Signature.Recv() != nil && len(f.Params) > 0 {
		switch poolRole(f) {
		case "get":
			return w.poolGet(f, args)
		case "add":
			w.poolAdd(f, args)
			return x.ts.Nil()
		}
	}
	return nil
}

func (w *regWalk) make(m *maker, args []*Term) *Term {
	x := w.x
	at := accessType(w.p)
	st := at.Underlying().(*types.Struct)
	var ps []*Poly
	for _, a := range args {
		ps = append(ps, w.poly(a))
	}
	bw := w.bw()
	q := roleOf(m.f, ps, bw)
	if x.quiet == 0 && w.judged {
		for i, n := range makerNeeds(m.f, q) {
			w.ob("C11", "request", fmt.Sprintf("%s by %s, condition %d", m.f.Name(), w.owner(), i), x.entails(n), w.where(), "the descriptor is requested with a start bit outside the register, a negative number or a width its kind of access cannot have")
		}
	}
	a := access{f: map[string]*Poly{}}
	fields := map[string]*Term{}
	var as []*Term
	same := map[string]*Poly{"StartAddr": q.addr, "StartBit": q.startBit, "ItemCount": q.count, "ItemWidth": q.width, "RegWidth": q.bw}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		var t *Term
		if v := same[n]; v != nil && m.holds[n+" <="] && m.holds[n+" >="] {
			t = x.ts.polyTerm(v)
		} else {
			t = x.ts.fresh(OpSym, n, nil)
		}
		fields[n] = t
		if n != "Type" {
			a.f[n] = polyAtom(t)
			if v := same[n]; v != nil && t.op != OpSym {
				a.f[n] = v
			}
		}
		as = append(as, t)
	}
	if m.holds["span <="] && m.holds["span >="] {
		a.f["EndAddr"] = plusC(plus(a.f["StartAddr"], a.f["RegCount"]), -1)
		fields["EndAddr"] = x.ts.polyTerm(a.f["EndAddr"])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == "EndAddr" {
				as[i] = fields["EndAddr"]
			}
		}
	}
	for _, c := range makerFacts() {
		if !m.holds[c.name] {
			continue
		}
		if c.guard != nil && !x.entails(c.guard(q)) {
			continue
		}
		f := c.p(a, q)
		if _, k := f.konst(); !k {
			x.assumeLE0(f)
		}
	}
	setM(x, w.made, fields["RegCount"], &madeBy{m, fields})
	return x.ts.mk(OpStruct, "", at, as...)
}

// owner names the function being walked, for constructs.
func (w *regWalk) owner() string {
	if n := len(w.x.events); n > 0 && w.x.events[n-1].Fn != nil {
		return w.p.fname(w.x.events[n-1].Fn)
	}
	return w.p.fname(w.root)
}

func (w *regWalk) where() string {
	if n := len(w.x.events); n > 0 {
		return w.p.pos(w.x.events[n-1].Pos)
	}
	return "-"
}

// poolRole tells the methods of the gap pool apart.
func poolRole(f *ssa.Function) string {
	res, par := f.Signature.Results(), f.Signature.Params()
	switch {
	case res.Len() == 2 && isBool(res.At(1).Type()):
		if s, ok := res.At(0).Type().Underlying().(*types.Struct); ok && hasField(s, "WriteSafe") {
			return "get"
		}
	case res.Len() == 0 && par.Len() == 1:
		if _, ok := par.At(0).Type().Underlying().(*types.Basic); !ok {
			return "add"
		}
	}
	return ""
}

func hasField(s *types.Struct, n string) bool {
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return true
		}
	}
	return false
}

func (w *regWalk) poolOwn(a *Term) {
	if w.x.quiet == 0 {
		r := rootOf(w.x.find(a))
		w.ob("C14", "pool-own", w.owner(), r.op == OpAlloc || w.pools[r], w.where(), "the gaps do not come from a pool made for this block alone, gaps of other blocks have other addresses")
	}
}

func (w *regWalk) poolGet(f *ssa.Function, args []*Term) *Term {
	x := w.x
	w.poolOwn(args[0])
	t := f.Signature.Results().At(0).Type()
	st := t.Underlying().(*types.Struct)
	var as []*Term
	v := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		n := st.Field(i).Name()
		v[n] = x.ts.fresh(OpSym, "gap."+n, nil)
	}
	width := polyConst(0)
	for i, a := range args[1:] {
		if pt := f.Signature.Params().At(i).Type(); isInteger(pt) {
			width = w.poly(a)
		} else if isBool(pt) && x.truth(a) == yes {
			v["WriteSafe"] = x.ts.Bool(true)
		}
	}
	for i := 0; i < st.NumFields(); i++ {
		as = append(as, v[st.Field(i).Name()])
	}
	ok := x.ts.fresh(OpSym, "gap.found", nil)
	s, e := polyAtom(v["StartBit"]), polyAtom(v["EndBit"])
	bw := w.bw()
	// what holds of a gap that was found
	fs := []*Poly{neg(s), neg(polyAtom(v["Addr"])), minus(s, e), plusC(minus(e, bw), 1)}
	if w.gaps {
		fs = append(fs, minus(plusC(bw, -1), e))
	}
	fs = append(fs, plusC(plus(minus(width, e), s), -1))
	w.found[ok] = fs
	if x.quiet == 0 {
		ev := x.events[len(x.events)-1]
		start := plus(polyAtom(v["Addr"]).mul(bw), s)
		end := plusC(plus(polyAtom(v["Addr"]).mul(bw), e), 1)
		x.event(Event{Kind: "gap", Fn: ev.Fn, Pos: ev.Pos, Args: []*Term{w.evTerm(start), w.evTerm(end), ok, v["WriteSafe"], v["Addr"]}})
	}
	return x.ts.mk(OpTuple, "", nil, x.ts.mk(OpStruct, "", t, as...), ok)
}

func (w *regWalk) poolAdd(f *ssa.Function, args []*Term) {
	x := w.x
	w.poolOwn(args[0])
	if x.quiet > 0 {
		return
	}
	g := x.find(args[1])
	if g.op == OpIface {
		g = x.find(g.args[0])
	}
	name := w.owner()
	ev := x.events[len(x.events)-1]
	st, ok := gapStruct(g)
	if !ok {
		w.ob("C14", "gap-add", name, false, w.where(), "cannot follow what is added to the gap pool")
		return
	}
	v := map[string]*Term{}
	for i := 0; i < st.NumFields(); i++ {
		v[st.Field(i).Name()] = x.Field(g, g.typ, i)
	}
	for _, n := range []string{"Addr", "StartBit", "EndBit", "WriteSafe"} {
		if v[n] == nil {
			w.ob("C14", "gap-add", name, false, w.where(), "a gap over several registers is added, which nobody can ask for")
			return
		}
	}
	bw := w.bw()
	a, s, e := w.poly(v["Addr"]), w.poly(v["StartBit"]), w.poly(v["EndBit"])
	w.ob("C14", "gap-add", name+", range", x.entails(neg(s)) && x.entails(minus(s, e)) && x.entails(plusC(minus(e, bw), 1)), w.where(), "the gap added may be empty or lie outside its register")
	if !x.entailsEq(plusC(minus(e, bw), 1)) {
		w.gapEnd = true
	}
	start := plus(a.mul(bw), s)
	end := plusC(plus(a.mul(bw), e), 1)
	x.event(Event{Kind: "add", Name: name, Fn: ev.Fn, Pos: ev.Pos, Args: []*Term{w.evTerm(start), w.evTerm(end), x.find(v["WriteSafe"])}})
}

func gapStruct(g *Term) (*types.Struct, bool) {
	if g.typ == nil {
		return nil, false
	}
	s, ok := g.typ.Underlying().(*types.Struct)
	return s, ok
}

// loaded adds what is known of the attributes of a functionality.
func (w *regWalk) loaded(x *Exec, addr, v *Term, t types.Type) {
	_, st, field, ok := fieldOf(addr)
	if !ok || !isInteger(t) {
		return
	}
	switch st + ":" + field {
	case "types.Sizes:Own", "types.Sizes:Cumulated", "types.Sizes:Aligned":
		x.assumeLE0(neg(polyAtom(v)))
	}
	if strings.HasPrefix(st, "fn.") && (field == "Width" || field == "Count" || field == "Align") {
		x.assumeLE0(neg(polyAtom(v)))
		if st == "fn.Block" && field == "Width" && addr.args[0] == w.blk && w.kind == "bus" {
			x.assumeLE0(plusC(neg(polyAtom(v)), 1))
		}
	}
}

// assumed: a functionality that is no array has one item.
func (w *regWalk) assumed(x *Exec, c *Term, v bool) {
	if fs := w.found[c]; v && fs != nil {
		for _, f := range fs {
			x.assumeLE0(f)
		}
	}
	if v || c.op != OpLoad {
		return
	}
	base, st, field, ok := fieldOf(c.args[0])
	if !ok || st != "fn.Func" || field != "IsArray" {
		return
	}
	n := w.p.named(pkgFn, "Func")
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == "Count" {
			cnt := x.load(x.FieldAddr(base, n, i), s.Field(i).Type())
			x.assume(x.ts.Bin(token.EQL, cnt, x.ts.Int(1), true), true)
		}
	}
}

func readOnlyKind(st string) bool {
	return st == "fn.Status" || st == "fn.Static" || st == "fn.Return"
}

func (w *regWalk) store(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
	if s, ok := in.(*ssa.Store); ok {
		w.writes[s] = true
	}
	if addr.op == OpGlobal {
		w.globalStore(in, addr, val)
		return
	}
	base, st, field, ok := fieldOf(addr)
	if !ok {
		return
	}
	pos := w.p.pos(in.Pos())
	if w.kind == "sizer" || w.kind == "addresser" {
		if r := rootOf(addr); r.op != OpAlloc && r != w.blk {
			if _, _, f, ok := fieldOf(base); ok && (f == "Sizes" || f == "AddrSpace") || st == "fn.Block" {
				w.ob("C13", "frame", w.p.fname(fr.fn)+" "+st+"."+field, false, pos, "a block is changed while another one is handled")
			}
		}
	}
	if st == "types.Access" || st == "types.Sizes" || st == "types.SingleRange" {
		if b, bst, bf, ok := fieldOf(base); ok && w.fnType(bst) != nil {
			if st == "types.Access" {
				w.ob("C11", "made", w.p.fname(fr.fn)+" "+bst+"."+bf, false, pos, "the field "+field+" of the access descriptor is changed on its own")
			} else {
				x.event(Event{Kind: "attr", Name: bst + "." + bf, Fn: fr.fn, Pos: in.Pos(), Args: []*Term{b}})
			}
		}
		return
	}
	s := w.fnType(st)
	if s == nil {
		return
	}
	var ft types.Type
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == field {
			ft = s.Field(i).Type()
		}
	}
	if ft == nil {
		return
	}
	switch {
	case types.Identical(ft, accessType(w.p)):
		w.place(fr, in, base, st, field, x.find(val))
	case strings.HasSuffix(field, "Addr"):
		a := x.find(val)
		if pt, ok := ft.Underlying().(*types.Pointer); ok && isInteger(pt.Elem()) {
			if a.op == OpNil {
				return
			}
			a = x.load(a, pt.Elem())
		} else if !isInteger(ft) {
			return
		}
		w.nPlace++
		x.event(Event{Kind: "strobe", Name: st + "." + field, Fn: fr.fn, Pos: in.Pos(), Args: []*Term{w.evTerm(w.poly(a)), base}})
	case field == "Sizes" || field == "AddrSpace":
		x.event(Event{Kind: "attr", Name: st + "." + field, Fn: fr.fn, Pos: in.Pos(), Args: []*Term{base}})
	}
}

// globalStore notes which attribute of the bus a process wide integer holds.
func (w *regWalk) globalStore(in ssa.Instruction, addr, val *Term) {
	if w.kind != "bus" {
		w.ob("C21", "global-reset", w.p.fname(in.Parent())+" "+addr.aux, false, w.p.pos(in.Pos()), "the process wide value "+addr.aux+" is changed while blocks are registerified")
		return
	}
	v := w.x.find(val)
	if v.op != OpLoad {
		return
	}
	if base, st, field, ok := fieldOf(v.args[0]); ok && st == "fn.Block" && base == w.blk {
		w.known[addr.aux] = field
	}
}

func (w *regWalk) place(fr *Frame, in ssa.Instruction, owner *Term, st, field string, val *Term) {
	x := w.x
	at := accessType(w.p)
	as := at.Underlying().(*types.Struct)
	pos := w.p.pos(in.Pos())
	name := st + "." + field
	con := w.p.fname(fr.fn) + " " + name
	v := map[string]*Term{}
	for i := 0; i < as.NumFields(); i++ {
		v[as.Field(i).Name()] = x.Field(val, at, i)
	}
	w.nPlace++
	rec := w.made[x.find(v["RegCount"])]
	if rec == nil {
		rec = w.made[v["RegCount"]]
	}
	ok := rec != nil
	if ok {
		for n, t := range rec.fields {
			ok = ok && x.same(t, v[n])
		}
	}
	width := polyConst(1)
	if t := w.fieldTerm(owner, st, "Width"); t != nil {
		width = w.poly(t)
	}
	count := polyConst(1)
	if t := w.fieldTerm(owner, st, "Count"); t != nil {
		count = w.poly(t)
	}
	f := map[string]*Poly{}
	for n, t := range v {
		if n != "Type" {
			f[n] = w.poly(t)
		}
	}
	if !ok {
		if a, is := x.accessOf(val, at); is {
			ok = true
			judgeAccess(x, a, request{count, a.f["StartAddr"], a.f["StartBit"], width, w.bw(), true}, false, func(rule string, good bool, msg string) { ok = ok && good })
		}
	}
	w.ob("C11", "made", con, ok, pos, "the access descriptor is not the one made for a request")
	w.ob("C11", "own-width", con, x.entailsEq(minus(f["ItemWidth"], width)), pos, "the access descriptor is not made for the width of the functionality")
	if st != "fn.Irq" {
		w.ob("C11", "own-count", con, x.entailsEq(minus(f["ItemCount"], count)), pos, "the access descriptor is not made for the number of items of the functionality")
	}
	bw := w.bw()
	start := plus(f["StartAddr"].mul(bw), f["StartBit"])
	end := plusC(plus(f["EndAddr"].mul(bw), f["EndBit"]), 1)
	x.event(Event{Kind: "place", Name: name, Fn: fr.fn, Pos: in.Pos(), Args: []*Term{w.evTerm(start), w.evTerm(end), owner}})
}

// ---- loops ----

func loopKey(p *Prog, fr *Frame, lc *loopCtx) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%s#%d", p.fname(fr.fn), lc.header.Index)
	for f := fr; f != nil && f.call != nil; f = f.caller {
		fmt.Fprintf(&b, "<%s", p.pos(f.call.Pos()))
	}
	return b.String()
}

func (w *regWalk) carriedOf(fr *Frame, lc *loopCtx) []carried {
	var out []carried
	for p, g := range lc.phi {
		if isInteger(p.Type()) && g != lc.entry[p] {
			out = append(out, carried{name: p.Comment + "/" + p.Name(), phi: p, entry: lc.entry[p], gen: g})
		}
	}
	for a, c := range lc.pre {
		if !w.localCell(a) {
			continue
		}
		if c.v != nil && (c.v.isConst() || w.x.isNumeric(c.v)) {
			if _, s := c.v.strVal(); s || c.v.isTrue() || c.v.isFalse() {
				continue
			}
			out = append(out, carried{name: "cell " + a.String(), cell: a, entry: c.v, gen: w.x.load(a, types.Typ[types.Int64])})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].name < out[j].name })
	return out
}

// localCell: a local integer, or one in a local struct that is no descriptor.
func (w *regWalk) localCell(a *Term) bool {
	for a.op == OpFieldAddr {
		if st, _ := shortAux(a.aux); st == "types.Access" || strings.HasPrefix(st, "fn.") || strings.HasPrefix(st, "gap.") {
			return false
		}
		a = a.args[0]
	}
	return a.op == OpAlloc
}

func (w *regWalk) enter(x *Exec, fr *Frame, lc *loopCtx) {
	u := &loopUser{key: loopKey(w.p, fr, lc), placed: nil, idx: map[*Term]*Poly{}, distr: map[*Term][]*ssa.Phi{}, sums: map[string]string{}, sumOf: map[string]*Term{}}
	u.vars = w.carriedOf(fr, lc)
	lc.user = u
}

// candidates are the cursors a loop may have.
func (u *loopUser) candidates() []string {
	var out []string
	for _, a := range u.vars {
		out = append(out, a.name)
	}
	for _, a := range u.vars {
		for _, b := range u.vars {
			if a.name != b.name {
				out = append(out, a.name+" + bit "+b.name)
			}
		}
	}
	return out
}

func (u *loopUser) position(c string, bw *Poly, val func(v carried) *Poly) *Poly {
	a, b, two := strings.Cut(c, " + bit ")
	pos := polyConst(0)
	for _, v := range u.vars {
		if v.name == a {
			pos = plus(pos, val(v).mul(bw))
		} else if two && v.name == b {
			pos = plus(pos, val(v))
		}
	}
	return pos
}

func (w *regWalk) chosen(u *loopUser) string {
	cs := u.candidates()
	best, n := "", -1
	for _, c := range cs {
		if d := w.dead[u.key][c]; n < 0 || d < n {
			best, n = c, d
		}
	}
	return best
}

func (w *regWalk) invariants(x *Exec, fr *Frame, lc *loopCtx) []*Poly {
	bw := w.bw()
	var out []*Poly
	var ps []*ssa.Phi
	for p, g := range lc.phi {
		if isInteger(p.Type()) && g.op == OpSym && g.ser > lc.mark {
			ps = append(ps, p)
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].Name() < ps[j].Name() })
	for _, p := range ps {
		g, e := polyAtom(lc.phi[p]), w.poly(lc.entry[p])
		out = append(out, neg(g), minus(e, g), minus(g, e), plusC(minus(g, bw), 1))
		for _, q := range ps {
			if p != q {
				h, d := polyAtom(lc.phi[q]), w.poly(lc.entry[q])
				out = append(out, minus(plus(e.mul(bw), d), plus(g.mul(bw), h)))
			}
		}
	}
	return out
}

type region struct {
	e          Event
	start, end *Poly
	what       string
}

func (w *regWalk) regions(evs []Event) (rs, adds, strobes []region, gaps []Event) {
	for _, e := range evs {
		switch e.Kind {
		case "place", "span", "unit":
			rs = append(rs, region{e, w.poly(e.Args[0]), w.poly(e.Args[1]), e.Name})
		case "add":
			adds = append(adds, region{e, w.poly(e.Args[0]), w.poly(e.Args[1]), "gap"})
		case "strobe":
			a := w.poly(e.Args[0]).mul(w.bw())
			strobes = append(strobes, region{e, a, plus(a, w.bw()), e.Name})
		case "gap":
			gaps = append(gaps, e)
		}
	}
	return
}

// gapOf finds the gap handed out that encloses r.
func (w *regWalk) gapOf(r region, gaps []Event) *Event {
	for i, g := range gaps {
		if w.x.truth(g.Args[2]) == yes && w.x.entails(minus(w.poly(g.Args[0]), r.start)) && w.x.entails(minus(r.end, w.poly(g.Args[1]))) {
			return &gaps[i]
		}
	}
	return nil
}

// chain adds what follows for spans that come one after the other.
func (w *regWalk) chain(evs []Event) {
	x := w.x
	rs, _, _, _ := w.regions(evs)
	w.chained = nil
	var last *region
	for i, r := range rs {
		if r.e.Kind != "span" {
			continue
		}
		if last != nil && !x.entails(minus(last.end, r.start)) {
			w.chained = nil
			return
		}
		last = &rs[i]
		w.chained = append(w.chained, r)
	}
}

func (w *regWalk) apart(a, b region) bool {
	x := w.x
	if n := len(w.chained); n > 0 {
		if a.e.Kind == "span" && b.e.Kind == "span" {
			return true
		}
		// the spans between the first and the last
		if b.e.Kind == "span" {
			a, b = b, a
		}
		if a.e.Kind == "span" && (x.entails(minus(b.end, w.chained[0].start)) || x.entails(minus(w.chained[n-1].end, b.start))) {
			return true
		}
	}
	return x.entails(minus(a.end, b.start)) || x.entails(minus(b.end, a.start)) || x.entails(minus(a.end, a.start)) || x.entails(minus(b.end, b.start))
}

type finding struct{ prop, rule, construct, pos, msg string }

// window judges the events of one iteration between two positions.
func (w *regWalk) window(evs []Event, from, to *Poly, say func(f finding, ok bool)) {
	x := w.x
	rs, adds, strobes, gaps := w.regions(evs)
	in := func(r region) bool {
		return from != nil && x.entails(minus(from, r.start)) && x.entails(minus(r.end, to))
	}
	at := func(r region) (string, string) { return w.p.fname(r.e.Fn) + " " + r.what, w.p.pos(r.e.Pos) }
	writable := false
	where := map[*Event][]region{}
	var loose []region
	for _, r := range rs {
		c, pos := at(r)
		st, _, _ := strings.Cut(r.what, ".")
		_ = st
		if from == nil {
			continue
		}
		if in(r) {
			loose = append(loose, r)
			say(finding{"C12", "placed", c, pos, "may lie outside the registers reserved for it"}, true)
		} else if g := w.gapOf(r, gaps); g != nil {
			where[g] = append(where[g], r)
			say(finding{"C12", "placed", c, pos, "may lie outside the registers reserved for it"}, true)
			if r.e.Kind == "place" && !readOnlyKind(ownerKind(r.what)) {
				say(finding{"C14", "write-safe", c, pos, "something writable is put into a gap that need not be write safe"}, x.truth(g.Args[3]) == yes)
			}
		} else {
			say(finding{"C12", "placed", c, pos, "may lie outside the registers reserved for it and outside the gap handed to it"}, false)
		}
		if r.e.Kind != "place" || !readOnlyKind(ownerKind(r.what)) {
			writable = true
		}
	}
	for i := range rs {
		for j := 0; j < i; j++ {
			c, pos := at(rs[i])
			c2, _ := at(rs[j])
			say(finding{"C12", "disjoint", c + " and " + c2, pos, "two functionalities may share bits"}, w.apart(rs[j], rs[i]))
		}
	}
	for _, s := range strobes {
		if from == nil {
			continue
		}
		c, pos := at(s)
		ok := in(s)
		for _, g := range gaps {
			if ok || x.truth(g.Args[2]) != yes {
				continue
			}
			a := w.poly(g.Args[4]).mul(w.bw())
			if x.entailsEq(minus(a, s.start)) {
				ok = true
				say(finding{"C14", "write-safe", c, pos, "a strobe register is put into a gap that need not be write safe"}, x.truth(g.Args[3]) == yes)
			}
		}
		say(finding{"C12", "strobe", c, pos, "the register may lie outside those reserved for the functionality"}, ok)
		writable = true
	}
	for i, a := range adds {
		c, pos := at(a)
		g := w.gapOf(a, gaps)
		say(finding{"C14", "gap-free", c, pos, "the gap offered may lie outside the registers reserved and outside the gap handed out"}, g != nil || in(a))
		for _, r := range rs {
			c2, _ := at(r)
			say(finding{"C14", "gap-free", c + ", " + c2, pos, "the gap offered may hold bits of a functionality"}, w.apart(a, r))
		}
		for j := 0; j < i; j++ {
			say(finding{"C14", "gap-free", c + ", twice", pos, "the same bits may be offered twice"}, w.apart(a, adds[j]))
		}
		ws := a.e.Args[2]
		switch x.truth(ws) {
		case no:
		case yes:
			good := !writable
			if g != nil {
				good = good && x.truth(g.Args[3]) == yes
			}
			say(finding{"C14", "gap-safety", c, pos, "a gap in a register holding something writable is offered as write safe"}, good)
		default:
			good := !writable && g != nil && (x.find(ws) == x.find(g.Args[3]) || x.eq(ws, g.Args[3]) == yes)
			say(finding{"C14", "gap-safety", c, pos, "a gap that may share its register with something writable may be offered as write safe"}, good)
		}
	}
}

func ownerKind(what string) string {
	i := strings.LastIndex(what, ".")
	if i < 0 {
		return what
	}
	return what[:i]
}

func (w *regWalk) back(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
	u, _ := lc.user.(*loopUser)
	if u == nil {
		return
	}
	evs := x.events[lc.evMark:]
	w.placedLists(u, lc, evs)
	w.distribute(u, lc, next)
	w.addUp(u, lc, next, evs)
	w.addressed(u, lc, next, evs)
	u.seen++
	bw := w.bw()
	has := false
	for _, e := range evs {
		if e.Kind == "place" || e.Kind == "span" || e.Kind == "unit" || e.Kind == "strobe" || e.Kind == "add" {
			has = true
		}
	}
	if has && !w.places[u.key] {
		w.places[u.key] = true
	}
	old := func(v carried) *Poly { return w.poly(v.gen) }
	new := func(v carried) *Poly { return w.poly(w.nextOf(v, next)) }
	if w.dead[u.key] == nil {
		w.dead[u.key] = map[string]int{}
	}
	choice := w.choice[u.key]
	if !w.places[u.key] {
		return
	}
	for _, c := range u.candidates() {
		if w.judged {
			if c != choice {
				continue
			}
		} else if w.dead[u.key][c] > 0 {
			continue
		}
		p0, p1 := u.position(c, bw, old), u.position(c, bw, new)
		bad := 0
		var all []finding
		var oks []bool
		say := func(f finding, ok bool) {
			all = append(all, f)
			oks = append(oks, ok)
			if !ok {
				bad++
			}
		}
		say(finding{"C12", "cursor", loopName(w.p, fr, lc), w.p.pos(lc.header.Instrs[0].Pos()), "the first free address may go back"}, x.entails(minus(p0, p1)))
		if has {
			w.window(evs, p0, p1, say)
		}
		w.dead[u.key][c] += bad
		if c == choice && w.places[u.key] {
			for i, f := range all {
				w.ob(f.prop, f.rule, f.construct, oks[i], f.pos, f.msg)
			}
		}
	}
	if has && len(u.candidates()) == 0 {
		w.ob("C12", "cursor", loopName(w.p, fr, lc), false, w.p.pos(lc.header.Instrs[0].Pos()), "functionalities are placed without advancing the first free address")
	}
}

func loopName(p *Prog, fr *Frame, lc *loopCtx) string {
	n := 0
	for _, b := range fr.fn.Blocks {
		if b == lc.header {
			break
		}
		if _, ok := p.loopsOf(fr.fn)[b]; ok {
			n++
		}
	}
	return fmt.Sprintf("%s, loop %d", p.fname(fr.fn), n)
}

func (w *regWalk) nextOf(v carried, next map[*ssa.Phi]*Term) *Term {
	if v.phi != nil {
		return next[v.phi]
	}
	return w.x.load(v.cell, types.Typ[types.Int64])
}

func (w *regWalk) leave(x *Exec, fr *Frame, lc *loopCtx, byHeader bool) {
	u, _ := lc.user.(*loopUser)
	if u == nil {
		return
	}
	cur := func(v carried) *Term {
		if v.phi != nil {
			return x.val(fr, v.phi)
		}
		return x.load(v.cell, types.Typ[types.Int64])
	}
	old := x.events
	evs := append([]Event{}, x.events[:lc.evMark]...)
	var rest []Event
	if !byHeader {
		rest = x.events[lc.evMark:]
	}
	if w.places[u.key] {
		c := w.choice[u.key]
		bw := w.bw()
		p0 := u.position(c, bw, func(v carried) *Poly { return w.poly(v.entry) })
		p1 := u.position(c, bw, func(v carried) *Poly { return w.poly(cur(v)) })
		evs = append(evs, Event{Kind: "span", Name: loopName(w.p, fr, lc), Fn: fr.fn, Pos: lc.header.Instrs[0].Pos(), Args: []*Term{w.evTerm(p0), w.evTerm(p1)}})
		// what every iteration kept
		x.assumeLE0(minus(p0, p1))
	}
	if byHeader {
		var ls []*Term
		for s := range u.idx {
			ls = append(ls, s)
		}
		sort.Slice(ls, func(i, j int) bool { return ls[i].id < ls[j].id })
		for _, s := range ls {
			if !w.complete(u, lc, s) {
				continue
			}
			if u.placed[s] || u.seen == 0 {
				evs = append(evs, Event{Kind: "covered", Fn: fr.fn, Args: []*Term{s}})
			}
			var fs []*ssa.Phi
			for p := range u.filter {
				fs = append(fs, p)
			}
			sort.Slice(fs, func(i, j int) bool { return fs[i].Name() < fs[j].Name() })
			for _, p := range fs {
				f := u.filter[p]
				if f.s == s && !f.bad && f.c != nil {
					evs = append(evs, Event{Kind: "filtered", Name: x.substTerm(f.c, lc.k, x.ts.mk(OpSym, "any", nil)).String(), Fn: fr.fn, Args: []*Term{s, x.val(fr, p), x.ts.Bool(f.v)}})
				}
			}
			if ds := u.distr[s]; len(ds) > 0 {
				e := Event{Kind: "distributed", Fn: fr.fn, Args: []*Term{s}}
				for _, p := range ds {
					e.Args = append(e.Args, x.val(fr, p))
				}
				evs = append(evs, e)
			}
			for _, v := range u.vars {
				if u.nest[v.name] == s && w.kind == "addresser" && s == x.find(w.lists["Subblocks"]) {
					a, b := w.poly(v.entry), w.poly(cur(v))
					// either all sizes were added or all subtracted
					if x.entails(minus(a, b)) {
						a, b = b, a
					}
					x.assumeLE0(minus(minus(a, b), polyAtom(w.sum)))
					x.assumeLE0(plus(minus(b, a), polyAtom(w.sum)))
					d := u.nestOff[v.name]
					evs = append(evs, Event{Kind: "nested", Fn: fr.fn, Args: []*Term{s, w.evTerm(plusC(b, d)), w.evTerm(plusC(a, d))}})
				}
				if k := u.sums[v.name]; k != "" && u.sumOf[v.name] == s {
					evs = append(evs, Event{Kind: "sum", Name: k, Fn: fr.fn, Args: []*Term{s, v.entry, cur(v)}})
				}
			}
		}
	}
	evs = append(evs, rest...)
	x.events = evs
	x.trail = append(x.trail, func() { x.events = old })
}

// elemOf tells which element of which list e is.
func (w *regWalk) elemOf(e *Term) (s *Term, idx *Poly, ok bool) {
	e = w.x.find(e)
	if e.op != OpLoad || e.args[0].op != OpIndexAddr {
		return nil, nil, false
	}
	a := e.args[0]
	return w.x.find(a.args[0]), w.poly(a.args[1]), true
}

// complete: the loop that has just been left went through all of s.
func (w *regWalk) complete(u *loopUser, lc *loopCtx, s *Term) bool {
	idx := u.idx[s]
	if idx == nil {
		return false
	}
	n := w.poly(w.x.length(s))
	at := func(k *Poly) *Poly { return w.x.substPoly(polyAt(idx, lc.k, k)) }
	first, step := at(polyConst(0)), minus(at(polyConst(1)), at(polyConst(0)))
	c, ok := step.konst()
	if !ok {
		return false
	}
	cur := at(lc.kcur)
	switch c {
	case 1:
		return w.x.entails(first) && w.x.entails(minus(n, cur))
	case -1:
		return w.x.entails(minus(plusC(n, -1), first)) && w.x.entails(plusC(cur, 1))
	}
	return false
}

func (w *regWalk) empty(s *Term) bool { return w.x.provesLE0(w.poly(w.x.length(s))) }

// placedLists notes the lists whose element this iteration gave registers.
func (w *regWalk) placedLists(u *loopUser, lc *loopCtx, evs []Event) {
	now := map[*Term]bool{}
	note := func(owner *Term, st string) {
		s, idx, ok := w.elemOf(owner)
		if !ok {
			return
		}
		if u.idx[s] == nil {
			u.idx[s] = idx
		} else if !u.idx[s].equal(idx) {
			return
		}
		if w.placedElem(w.x.find(owner), st, evs) {
			now[s] = true
		}
	}
	for _, e := range evs {
		switch e.Kind {
		case "place":
			note(e.Args[2], ownerKind(e.Name))
		case "strobe":
			note(e.Args[1], ownerKind(e.Name))
		case "unit":
			note(e.Args[2], "unit")
		case "call":
			for f, k := range w.cut {
				if e.Name == calleeName(w.p, f) && k != "" {
					for _, a := range e.Args {
						note(a, "fn.Block")
					}
				}
			}
		}
	}
	if u.seen == 0 {
		u.placed = now
		return
	}
	for s := range u.placed {
		if !now[s] {
			delete(u.placed, s)
		}
	}
}

func (w *regWalk) placedElem(e *Term, st string, evs []Event) bool {
	x := w.x
	has := func(kind, name string) bool {
		for _, v := range evs {
			i := 2
			if kind == "strobe" {
				i = 1
			}
			if v.Kind == kind && v.Name == name && x.find(v.Args[i]) == e {
				return true
			}
		}
		return false
	}
	list := func(f string) (covered, empty, some bool) {
		l := w.fieldTerm(e, st, f)
		if l == nil {
			return
		}
		n := w.poly(x.length(l))
		return w.covered(l, evs), w.empty(l), x.provesLE0(plusC(neg(n), 1))
	}
	switch st {
	case "fn.Irq":
		en := w.fieldTerm(e, st, "AddEnable")
		cl := w.fieldTerm(e, st, "Clear")
		return has("place", "fn.Irq.Access") &&
			(en == nil || x.truth(en) == no || has("place", "fn.Irq.EnableAccess")) &&
			(cl == nil || x.eq(cl, x.ts.Str("Explicit")) == no || has("strobe", "fn.Irq.ClearAddr"))
	case "fn.Proc", "fn.Stream":
		pc, pe, ps := list("Params")
		rc, re, rs := list("Returns")
		if st == "fn.Stream" {
			// a stream never has both
			return has("strobe", "fn.Stream.StbAddr") && (pc || pe || rs) && (rc || re || ps)
		}
		return (pc || pe) && (rc || re) && (has("strobe", "fn.Proc.CallAddr") || pe && rs) && (has("strobe", "fn.Proc.ExitAddr") || re)
	case "fn.Block", "unit":
		return true
	}
	return has("place", st+".Access")
}

// covered: every element of the list was given registers by a loop.
func (w *regWalk) covered(l *Term, evs []Event) bool { return w.coveredD(w.x.find(l), evs, 4) }

func (w *regWalk) coveredD(l *Term, evs []Event, depth int) bool {
	if depth == 0 {
		return false
	}
	x := w.x
	if w.empty(l) {
		return true
	}
	for _, e := range evs {
		switch e.Kind {
		case "covered":
			s := x.find(e.Args[0])
			if s == l || w.copyOf(s) == l {
				return true
			}
		case "filtered":
			if x.find(e.Args[0]) != l || !w.coveredD(x.find(e.Args[1]), evs, depth-1) {
				continue
			}
			for _, o := range evs {
				if o.Kind == "filtered" && o.Name == e.Name && o.Args[2] != e.Args[2] && x.find(o.Args[0]) == l && w.coveredD(x.find(o.Args[1]), evs, depth-1) {
					return true
				}
			}
		case "distributed":
			if x.find(e.Args[0]) != l {
				continue
			}
			all := true
			for _, d := range e.Args[1:] {
				all = all && w.coveredD(x.find(d), evs, depth-1)
			}
			if all {
				return true
			}
		}
	}
	return false
}

// copyOf sees through copies of a whole list.
func (w *regWalk) copyOf(s *Term) *Term {
	x := w.x
	if s.op == OpAppend && s.aux == "..." && w.empty(s.args[0]) {
		return x.find(s.args[1])
	}
	if s.op == OpCall && strings.HasPrefix(s.aux, "slices.Clone") {
		return x.find(s.args[0])
	}
	return nil
}

// distribute notes loops that copy each element of a list to one of several.
func (w *regWalk) distribute(u *loopUser, lc *loopCtx, next map[*ssa.Phi]*Term) {
	x := w.x
	got := map[*Term]bool{}
	added := map[*ssa.Phi]*Term{}
	defer func() { w.filters(u, lc, next, added) }()
	for p, n := range next {
		if _, ok := p.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		n := x.find(n)
		if n.op != OpAppend || n.aux != "" || n.args[0] != x.find(lc.phi[p]) {
			if n.op == OpAppend && n.aux == "..." && x.find(n.args[0]) == x.find(lc.phi[p]) {
				if els, ok := x.varargs(n.args[1]); ok {
					n = &Term{op: OpAppend, args: append([]*Term{n.args[0]}, els...)}
				} else {
					continue
				}
			} else {
				continue
			}
		}
		for _, el := range n.args[1:] {
			s, idx, ok := w.elemOf(el)
			if !ok {
				continue
			}
			if u.idx[s] == nil {
				u.idx[s] = idx
			}
			if !u.idx[s].equal(idx) {
				continue
			}
			got[s] = true
			added[p] = s
			dup := false
			for _, q := range u.distr[s] {
				dup = dup || q == p
			}
			if !dup && (u.seen == 0 || u.distr[s] != nil) {
				u.distr[s] = append(u.distr[s], p)
			}
		}
	}
	for s := range u.distr {
		if !got[s] {
			u.distr[s] = nil
		}
	}
}

// filtering: the elements of a list for which a condition holds are copied.
type filtering struct {
	s      *Term
	c      *Term
	v, bad bool
}

// filters notes loops that copy the elements for which one condition holds.
func (w *regWalk) filters(u *loopUser, lc *loopCtx, next map[*ssa.Phi]*Term, added map[*ssa.Phi]*Term) {
	x := w.x
	if u.filter == nil {
		u.filter = map[*ssa.Phi]*filtering{}
	}
	// the conditions on the element met in this iteration
	var cs []*Term
	val := map[*Term]bool{}
	for c, v := range x.lits {
		if lc.known[c] || c.op == OpBin && c.aux == "<" || !c.contains(func(t *Term) bool { return t == lc.k }) {
			continue
		}
		if c.op == OpBin && c.aux == "==" {
			for i, a := range c.args {
				if a.isTrue() || a.isFalse() {
					c, v = c.args[1-i], v == a.isTrue()
					break
				}
			}
		}
		if _, dup := val[c]; !dup {
			cs = append(cs, c)
		}
		val[c] = v
	}
	for p, n := range next {
		if _, ok := p.Type().Underlying().(*types.Slice); !ok {
			continue
		}
		s := added[p]
		if s == nil && x.find(n) != x.find(lc.phi[p]) {
			u.filter[p] = &filtering{bad: true}
			continue
		}
		f := u.filter[p]
		if f == nil {
			f = &filtering{}
			u.filter[p] = f
		}
		if len(cs) != 1 || s != nil && f.s != nil && f.s != s || f.c != nil && (f.c != cs[0] || f.v != (val[cs[0]] == (s != nil))) {
			f.bad = true
			continue
		}
		f.c, f.v = cs[0], val[cs[0]] == (s != nil)
		if s != nil {
			f.s = s
		}
	}
}

// addUp notes what the integers carried round the loop add up.
func (w *regWalk) addUp(u *loopUser, lc *loopCtx, next map[*ssa.Phi]*Term, evs []Event) {
	x := w.x
	for _, v := range u.vars {
		d := minus(w.poly(w.nextOf(v, next)), w.poly(v.gen))
		kind := ""
		var list *Term
		for _, e := range evs {
			if e.Kind != "call" || !w.isCut(e.Name, "sizer") {
				continue
			}
			for _, a := range e.Args {
				s, _, ok := w.elemOf(a)
				if !ok {
					continue
				}
				el := x.find(a)
				cnt := w.poly(w.fieldTerm(el, "fn.Block", "Count"))
				for _, f := range []string{"Cumulated", "Aligned"} {
					if x.entailsEq(minus(d, cnt.mul(w.poly(w.sizeOf(el, f))))) {
						kind, list = f, s
					}
				}
			}
		}
		if u.seen > 0 && u.sums[v.name] != kind {
			kind = ""
		}
		u.sums[v.name] = kind
		u.sumOf[v.name] = list
	}
}

func (w *regWalk) isCut(name, kind string) bool {
	for f, k := range w.cut {
		if k == kind && calleeName(w.p, f) == name {
			return true
		}
	}
	return false
}

func (w *regWalk) sizeOf(blk *Term, field string) *Term {
	return w.structField(blk, "Block", "Sizes", field)
}

func (w *regWalk) structField(blk *Term, st, f1, f2 string) *Term {
	n := w.p.named(pkgFn, st)
	s := n.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() != f1 {
			continue
		}
		t := s.Field(i).Type()
		ss := t.Underlying().(*types.Struct)
		for j := 0; j < ss.NumFields(); j++ {
			if ss.Field(j).Name() == f2 {
				return w.x.load(w.x.FieldAddr(w.x.FieldAddr(blk, n, i), t, j), ss.Field(j).Type())
			}
		}
	}
	return w.x.ts.Nil()
}

// ---- the roots ----

// cutFunctions are the recursive functions over blocks: each is walked on its
// own and stands for itself where it is called.
func cutFunctions(p *Prog, roots []*ssa.Function) map[*ssa.Function]string {
	callees, reach := p.callees, p.reach
	out := map[*ssa.Function]string{}
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function, from *ssa.Function)
	visit = func(f, from *ssa.Function) {
		rf := reach(f)
		if rf[f] && inPkg(f, pkgReg) && (from == nil || !(rf[from] && reach(from)[f])) {
			kind := ""
			for g := range rf {
				for _, b := range append([]*ssa.BasicBlock{}, g.Blocks...) {
					for _, in := range b.Instrs {
						if s, ok := in.(*ssa.Store); ok {
							fa, ok := s.Addr.(*ssa.FieldAddr)
							for ok {
								in, more := fa.X.(*ssa.FieldAddr)
								if !more {
									break
								}
								fa = in
							}
							if ok && structName(deref(fa.X.Type())) == p.mod+"/"+pkgFn+".Block" {
								switch deref(fa.X.Type()).Underlying().(*types.Struct).Field(fa.Field).Name() {
								case "Sizes":
									kind = "sizer"
								case "AddrSpace":
									if kind == "" {
										kind = "addresser"
									}
								}
							}
						}
					}
				}
			}
			out[f] = kind
		}
		if seen[f] {
			return
		}
		seen[f] = true
		for _, g := range callees(f) {
			visit(g, f)
		}
	}
	for _, f := range roots {
		visit(f, nil)
	}
	return out
}

var regLists = []string{"Procs", "Streams", "Configs", "Masks", "Statics", "Statuses", "Irqs", "Subblocks"}

func (w *regWalk) hooks() Hooks {
	p := w.p
	return Hooks{
		Opaque: func(f *ssa.Function) bool {
			if _, ok := w.cut[f]; ok && f != w.root {
				return true
			}
			if w.units[f] && w.kind != "unit" {
				return true
			}
			return !inPkg(f, pkgReg) && !inPkg(f, pkgTypes) && !inPkg(f, pkgUtil)
		},
		Subst: w.subst,
		Framed: func(f *ssa.Function, addr *Term) bool {
			// sizer and addresser change the blocks below alone
			if f != nil && w.cut[f] == "" {
				return false
			}
			return addr == nil || w.kind != "bus" && rootOf(addr) == w.blk
		},
		Store:      w.store,
		Loaded:     w.loaded,
		Assumed:    w.assumed,
		LoopEnter:  w.enter,
		BackEdge:   w.back,
		LoopLeave:  w.leave,
		Invariants: w.invariants,
		Peel: func(x *Exec, fr *Frame, lc *loopCtx) bool {
			// only where something is placed and several loops follow each other
			return len(fr.loops) > 1 || nestedFrame(fr) || w.kind == "unit"
		},
		Panic: func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
			if errorMet(x) {
				return
			}
			w.ob("C09", "no-crash", w.placing()+" panic", false, p.pos(in.Pos()), "an accepted description ends in a panic")
		},
		Div: func(x *Exec, fr *Frame, in *ssa.BinOp, a, b *Term) {
			if x.quiet > 0 {
				return
			}
			d := w.poly(b)
			ok := x.entails(plusC(neg(d), 1)) || x.entails(plusC(d, 1)) || w.notZero(b)
			w.ob("C09", "no-crash", p.fname(fr.fn)+" division", ok, p.pos(in.Pos()), "an accepted description ends in a division by zero")
			if x.entails(neg(d)) {
				x.assumeLE0(plusC(neg(d), 1))
			}
		},
		Result: func(x *Exec, in ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term) {
			if w.units[callee] && w.kind != "unit" {
				w.unitCall(callee, args, res, in)
			}
		},
		Ret: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term, res *Term) {
			if callee == nil || w.cut[callee] != "sizer" || callee == w.root && x.stack[callee] == 0 {
				return
			}
			// the sizes returned are those of the block
			rs := callee.Signature.Results()
			if rs.Len() != 1 || len(args) == 0 {
				return
			}
			if st, ok := rs.At(0).Type().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					x.assume(x.ts.Bin(token.EQL, x.Field(res, rs.At(0).Type(), i), w.sizeOf(w.blockArg(callee, args), st.Field(i).Name()), true), true)
				}
			}
		},
	}
}

// unitFunc tells whether f places one functionality: it takes the
// functionality and the first free address and returns the new one.
func unitFunc(p *Prog, f *ssa.Function) bool {
	rs := f.Signature.Results()
	if !inPkg(f, pkgReg) || f.Parent() != nil || len(f.Blocks) == 0 || len(f.FreeVars) > 0 || rs.Len() != 1 || !isInteger(rs.At(0).Type()) {
		return false
	}
	ints, fns := 0, 0
	for _, q := range f.Params {
		t := q.Type()
		if isInteger(t) {
			ints++
		} else if unitOwner(p, t) != "" {
			fns++
		} else if pt, ok := t.(*types.Pointer); !ok || structName(pt.Elem()) != p.mod+"/"+pkgGap+".Pool" {
			return false
		}
	}
	return ints == 1 && fns == 1
}

func unitOwner(p *Prog, t types.Type) string {
	pt, ok := t.(*types.Pointer)
	if !ok {
		return ""
	}
	n, ok := strings.CutPrefix(structName(pt.Elem()), p.mod+"/"+pkgFn+".")
	if !ok || n == "Block" {
		return ""
	}
	return "fn." + n
}

func (w *regWalk) unitArgs(f *ssa.Function, args []*Term) (addr, owner *Term, st string, pools []*Term) {
	for i, q := range f.Params {
		if isInteger(q.Type()) {
			addr = args[i]
		} else if o := unitOwner(w.p, q.Type()); o != "" {
			owner, st = w.x.find(args[i]), o
		} else {
			pools = append(pools, args[i])
		}
	}
	return
}

func (w *regWalk) unitCall(f *ssa.Function, args []*Term, res *Term, in ssa.CallInstruction) {
	x := w.x
	addr, owner, st, pools := w.unitArgs(f, args)
	for _, a := range pools {
		w.poolOwn(a)
	}
	a, r := w.poly(addr), w.poly(res)
	if x.quiet == 0 {
		w.ob("C12", "not-negative", "call of "+w.p.fname(f)+" in "+w.owner(), x.entails(neg(a)), w.where(), "the registers may start below address 0")
		bw := w.bw()
		x.event(Event{Kind: "unit", Name: st + "." + f.Name(), Fn: in.Parent(), Pos: in.Pos(), Args: []*Term{w.evTerm(a.mul(bw)), w.evTerm(r.mul(bw)), owner}})
	}
	x.assumeLE0(minus(a, r))
}

// finishUnit judges a path through a function that places one functionality.
func (w *regWalk) finishUnit(args []*Term, res *Term) {
	x := w.x
	name, pos := w.p.fname(w.root), w.p.pos(w.root.Pos())
	addr, owner, st, _ := w.unitArgs(w.root, args)
	a, r := w.poly(addr), w.poly(res)
	bw := w.bw()
	w.ob("C12", "cursor", name, x.entails(minus(a, r)), pos, "the first free address may go back")
	w.window(x.events, a.mul(bw), r.mul(bw), func(f finding, ok bool) {
		w.ob(f.prop, f.rule, f.construct, ok, f.pos, f.msg)
	})
	w.ob("C13", "registered", name, w.placedElem(owner, st, x.events), pos, "the functionality may be left without registers")
}

func (w *regWalk) blockArg(f *ssa.Function, args []*Term) *Term {
	for i, p := range f.Params {
		if pt, ok := p.Type().(*types.Pointer); ok && structName(pt.Elem()) == w.p.mod+"/"+pkgFn+".Block" {
			return w.x.find(args[i])
		}
	}
	return w.x.ts.Nil()
}

func nestedFrame(fr *Frame) bool {
	for f := fr.caller; f != nil; f = f.caller {
		if len(f.loops) > 0 {
			return true
		}
	}
	return false
}

// walk goes through one root until the choice of cursors is stable.
func (w *regWalk) walk(ob func(prop, rule, construct string, ok bool, pos, msg string)) *Exec {
	type rec struct {
		prop, rule, c string
		ok            bool
		pos, msg      string
	}
	for pass := 0; ; pass++ {
		var recs []rec
		w.ob = func(prop, rule, c string, ok bool, pos, msg string) {
			recs = append(recs, rec{prop, rule, c, ok, pos, msg})
		}
		x := newExec(w.p, Hooks{})
		x.linear = true
		x.sameIdx = map[*Term][]*Term{}
		w.x = x
		w.made = map[*Term]*madeBy{}
		w.found = map[*Term][]*Poly{}
		w.nPlace, w.ends = 0, 0
		w.dead = map[string]map[string]int{}
		x.h = w.hooks()
		w.start()
		args := x.params(w.root)
		w.blk = w.blockArg(w.root, args)
		if w.kind == "unit" {
			addr, _, _, pools := w.unitArgs(w.root, args)
			x.assumeLE0(neg(w.poly(addr)))
			w.pools = map[*Term]bool{}
			for _, q := range pools {
				w.pools[x.find(q)] = true
			}
		}
		w.lists = map[string]*Term{}
		for _, f := range regLists {
			if w.kind == "unit" {
				break
			}
			w.lists[f] = w.fieldTerm(w.blk, "fn.Block", f)
		}
		if w.kind == "sizer" || w.kind == "addresser" {
			w.pin(w.blk, w.p.named(pkgFn, "Block"))
		}
		if w.kind == "addresser" {
			for i, q := range w.root.Params {
				if isInteger(q.Type()) {
					w.base = args[i]
				}
			}
			// an array without items has no address space
			x.assumeLE0(plusC(neg(w.poly(w.fieldTerm(w.blk, "fn.Block", "Count"))), 1))
			// what the sizer promised
			w.sum = x.ts.mk(OpSym, "sum of the sub-blocks", nil)
			x.assumeLE0(neg(polyAtom(w.sum)))
			x.assumeLE0(minus(plus(w.poly(w.sizeOf(w.blk, "Own")), polyAtom(w.sum)), w.poly(w.sizeOf(w.blk, "Aligned"))))
		}
		places := len(w.places)
		gapEnd := w.gapEnd
		x.run(w.root, args, func(fr *Frame, res *Term) {
			w.ends++
			w.finish(fr, args, res)
		})
		stable := len(w.places) == places && gapEnd == w.gapEnd
		for k := range w.dead {
			if c := w.choice[k]; c != "" && w.dead[k][c] == 0 {
				continue
			}
			best, n := w.choice[k], -1
			var cs []string
			for c := range w.dead[k] {
				cs = append(cs, c)
			}
			sort.Slice(cs, func(i, j int) bool {
				a, b := strings.Contains(cs[i], " + bit "), strings.Contains(cs[j], " + bit ")
				if a != b {
					return b
				}
				return cs[i] < cs[j]
			})
			for _, c := range cs {
				if d := w.dead[k][c]; d == 0 && n < 0 || best == "" {
					best, n = c, d
				}
			}
			if w.choice[k] != best {
				w.choice[k] = best
				stable = false
			}
		}
		if !w.judged && (stable || pass == 6) {
			w.judged = true
			continue
		}
		if w.judged || x.fail != "" {
			for _, o := range recs {
				ob(o.prop, o.rule, o.c, o.ok, o.pos, o.msg)
			}
			return x
		}
	}
}

// pin keeps the attributes of a block as they are now.
func (w *regWalk) pin(a *Term, t types.Type) {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		f := w.x.FieldAddr(a, t, i)
		ft := s.Field(i).Type()
		if isStruct(ft) {
			w.pin(f, ft)
			continue
		}
		w.x.store(f, w.x.load(f, ft), ft)
	}
}

// start sets what the process wide values are known to be.
func (w *regWalk) start() {
	if w.kind == "bus" {
		return
	}
	x := w.x
	sym := map[string]*Term{}
	var gs []string
	for g := range w.known {
		gs = append(gs, g)
	}
	sort.Strings(gs)
	for _, g := range gs {
		f := w.known[g]
		if sym[f] == nil {
			sym[f] = x.ts.mk(OpSym, "bus."+f, nil)
			lo := int64(0)
			if f == "Width" {
				lo = 1
			}
			x.assumeLE0(plusC(neg(polyAtom(sym[f])), lo))
		}
		x.store(x.ts.mk(OpGlobal, g, nil), sym[f], types.Typ[types.Int64])
	}
}

// finish judges a path through a whole root.
func (w *regWalk) finish(fr *Frame, args []*Term, res *Term) {
	if !w.judged {
		return
	}
	switch w.kind {
	case "addresser":
		w.finishAddr()
		return
	case "unit":
		w.finishUnit(args, res)
		return
	}
	x := w.x
	name := w.p.fname(w.root)
	pos := w.p.pos(w.root.Pos())
	bw := w.bw()
	evs := x.events
	w.chain(evs)
	w.window(evs, nil, nil, func(f finding, ok bool) { w.ob(f.prop, f.rule, f.construct, ok, f.pos, f.msg) })
	own := w.poly(w.sizeOf(w.blk, "Own"))
	rs, _, strobes, _ := w.regions(evs)
	if n := len(w.chained); n > 0 && x.entails(minus(w.chained[n-1].end, own.mul(bw))) && x.entails(neg(w.chained[0].start)) {
		// all spans lie between the first and the last
		var rest []region
		for _, r := range rs {
			if r.e.Kind == "span" {
				w.ob("C13", "own", name+", "+r.what, true, w.p.pos(r.e.Pos), "")
				w.ob("C12", "not-negative", name+", "+r.what, true, w.p.pos(r.e.Pos), "")
			} else {
				rest = append(rest, r)
			}
		}
		rs = rest
	}
	for _, r := range append(rs, strobes...) {
		c := name + ", " + r.what
		w.ob("C13", "own", c, x.entails(minus(r.end, own.mul(bw))), w.p.pos(r.e.Pos), "the size reported for the block may be below the end of its registers")
		w.ob("C12", "not-negative", c, x.entails(neg(r.start)), w.p.pos(r.e.Pos), "the registers may start below address 0")
	}
	for _, f := range regLists {
		l := w.lists[f]
		if l == nil {
			w.ob("C13", "registered", name+" "+f, false, pos, "the block has no such list")
			continue
		}
		w.ob("C13", "registered", name+" "+f, w.covered(l, evs), pos, "some "+f+" of the block may be left without registers")
	}
	// the sizes
	set := -1
	for i, e := range evs {
		if e.Kind == "attr" && e.Name == "fn.Block.Sizes" && x.find(e.Args[0]) == x.find(w.blk) {
			set = i
		}
	}
	w.ob("C13", "sizes", name+" are set", set >= 0, pos, "the sizes of the block are not set")
	if set < 0 {
		return
	}
	sub := w.lists["Subblocks"]
	sum := func(kind string) (*Poly, bool) {
		if w.empty(sub) {
			return polyConst(0), true
		}
		for _, e := range evs {
			if e.Kind == "sum" && e.Name == kind && x.find(e.Args[0]) == x.find(sub) {
				return minus(w.poly(e.Args[2]), w.poly(e.Args[1])), true
			}
		}
		return nil, false
	}
	cum, ok := sum("Cumulated")
	w.ob("C13", "sizes", name+" cumulated", ok && x.entailsEq(minus(w.poly(w.sizeOf(w.blk, "Cumulated")), plus(own, cum))), pos, "the cumulated size is not the own size and the cumulated sizes of all instances of the sub-blocks")
	al, ok := sum("Aligned")
	w.ob("C13", "sizes", name+" aligned", ok && x.entails(minus(plus(own, al), w.poly(w.sizeOf(w.blk, "Aligned")))), pos, "the aligned size may not hold the own registers and all instances of the sub-blocks")
	if w.kind == "sizer" {
		return
	}
	called := false
	for i, e := range evs {
		if e.Kind == "call" && w.isCut(e.Name, "addresser") && i > set {
			for f, k := range w.cut {
				if k != "addresser" {
					continue
				}
				called = called || w.blockArg(f, e.Args) == x.find(w.blk)
				for j, p := range f.Params {
					if isInteger(p.Type()) {
						w.ob("C13", "nested", name+" starts", x.entails(neg(w.poly(e.Args[j]))), w.p.pos(e.Pos), "the bus may start below address 0")
					}
				}
			}
		}
	}
	w.ob("C13", "nested", name+" assigns", called, pos, "address spaces are not assigned after the sizes are known")
}

// finishAddr judges a path through the function that assigns address spaces.
func (w *regWalk) finishAddr() {
	x := w.x
	name := w.p.fname(w.root)
	pos := w.p.pos(w.root.Pos())
	start := w.poly(w.structField(w.blk, "Block", "AddrSpace", "Start"))
	end := w.poly(w.structField(w.blk, "Block", "AddrSpace", "End"))
	n := w.p.named(pkgFn, "Block")
	_ = n
	count := w.poly(w.fieldTerm(w.blk, "fn.Block", "Count"))
	w.ob("C13", "space", name+" start", x.entailsEq(minus(start, w.poly(w.base))), pos, "the address space does not start at the base address")
	w.ob("C13", "space", name+" end", x.entailsEq(plusC(minus(minus(end, start), count.mul(w.poly(w.sizeOf(w.blk, "Aligned")))), 1)), pos, "the address space is not count times the aligned size")
	sub := w.lists["Subblocks"]
	var e *Event
	for i := range x.events {
		if x.events[i].Kind == "nested" && x.find(x.events[i].Args[0]) == x.find(sub) {
			e = &x.events[i]
		}
	}
	if e == nil {
		w.ob("C13", "nested", name+" all", w.empty(sub), pos, "some sub-blocks get no address space, or get one that is not next to the one before")
		return
	}
	w.ob("C13", "nested", name+" all", true, pos, "")
	lo, hi := w.poly(e.Args[1]), w.poly(e.Args[2])
	w.ob("C13", "nested", name+" above", x.entails(minus(plus(start, w.poly(w.sizeOf(w.blk, "Own"))), lo)), pos, "a sub-block may share addresses with the registers of its parent")
	w.ob("C13", "nested", name+" inside", x.entails(plusC(minus(hi, end), -1)), pos, "a sub-block may lie outside the address space of its parent")
}

// addressed notes how one iteration hands out address spaces.
func (w *regWalk) addressed(u *loopUser, lc *loopCtx, next map[*ssa.Phi]*Term, evs []Event) {
	x := w.x
	got := map[string]*Term{}
	off := map[string]int64{}
	for _, e := range evs {
		if e.Kind != "call" || !w.isCut(e.Name, "addresser") {
			continue
		}
		for f, k := range w.cut {
			if k != "addresser" || calleeName(w.p, f) != e.Name {
				continue
			}
			el := w.blockArg(f, e.Args)
			s, idx, ok := w.elemOf(el)
			if !ok {
				continue
			}
			if u.idx[s] == nil {
				u.idx[s] = idx
			}
			size := w.poly(w.fieldTerm(el, "fn.Block", "Count")).mul(w.poly(w.sizeOf(el, "Aligned")))
			for j, p := range f.Params {
				if !isInteger(p.Type()) {
					continue
				}
				base := w.poly(e.Args[j])
				for _, v := range u.vars {
					g, n := w.poly(v.gen), w.poly(w.nextOf(v, next))
					// the cursor may be off by a constant
					for _, c := range []*Poly{n, g} {
						down := c == n
						d, ok := x.substPoly(minus(base, c)).konst()
						if !ok && x.entailsEq(minus(base, c)) {
							d, ok = 0, true
						}
						if !ok || down && !x.entailsEq(minus(minus(g, n), size)) || !down && !x.entailsEq(minus(minus(n, g), size)) {
							continue
						}
						got[v.name] = s
						off[v.name] = d
					}
				}
			}
		}
	}
	if u.seen == 0 {
		u.nest, u.nestOff = got, off
		return
	}
	for n, s := range u.nest {
		if got[n] != s || off[n] != u.nestOff[n] {
			delete(u.nest, n)
		}
	}
}

// checkReg walks the registerification and reports what belongs to prop.
func checkReg(p *Prog, r *Report, prop string) {
	var roots []*ssa.Function
	for _, f := range p.funcs {
		if inPkg(f, pkgReg) && f.Signature.Recv() == nil && f.Object() != nil && f.Object().Exported() && f.Parent() == nil {
			for _, q := range f.Params {
				if pt, ok := q.Type().(*types.Pointer); ok && structName(pt.Elem()) == p.mod+"/"+pkgFn+".Block" {
					roots = append(roots, f)
					break
				}
			}
		}
	}
	if len(roots) != 1 || accessType(p) == nil || p.named(pkgFn, "Block") == nil {
		r.missing("the exported function of package reg that takes the bus")
		return
	}
	ms := learnMakers(p)
	cut := cutFunctions(p, roots)
	type job struct {
		f    *ssa.Function
		kind string
	}
	jobs := []job{{roots[0], "bus"}}
	var cs []*ssa.Function
	for f := range cut {
		cs = append(cs, f)
	}
	sort.Slice(cs, func(i, j int) bool { return p.fname(cs[i]) < p.fname(cs[j]) })
	for _, f := range cs {
		if cut[f] != "" {
			jobs = append(jobs, job{f, cut[f]})
		}
	}
	units := map[*ssa.Function]bool{}
	for f := range p.reach(roots[0]) {
		if unitFunc(p, f) {
			units[f] = true
		}
	}
	// the units called by no other unit
	called := map[*ssa.Function]bool{}
	for f := range units {
		for g := range p.reach(f) {
			if g != f {
				called[g] = true
			}
		}
	}
	var us []*ssa.Function
	for f := range units {
		if called[f] {
			delete(units, f)
		} else {
			us = append(us, f)
		}
	}
	sort.Slice(us, func(i, j int) bool { return p.fname(us[i]) < p.fname(us[j]) })
	for _, f := range us {
		jobs = append(jobs, job{f, "unit"})
	}
	kinds := map[string]int{}
	for _, j := range jobs {
		kinds[j.kind]++
	}
	if kinds["sizer"] != 1 || kinds["addresser"] != 1 {
		r.missing("the two recursive functions over the blocks that set the sizes and the address spaces")
		return
	}
	gaps := true
	for {
		obs := newReport(prop, r.tier, p)
		known := map[string]string{}
		gapEnd := false
		for _, j := range jobs {
			w := &regWalk{p: p, root: j.f, kind: j.kind, makers: ms, cut: cut, units: units, known: known, gaps: gaps,
				choice: map[string]string{}, dead: map[string]map[string]int{}, places: map[string]bool{}, writes: map[*ssa.Store]bool{}}
			x := w.walk(func(pr, rule, c string, ok bool, pos, msg string) {
				if pr == prop || prop == "C12" && pr == "C14" && (rule == "gap-free" || rule == "gap-add" || rule == "pool-own") {
					obs.ob(rule, c, ok, pos, "%s", msg)
				}
			})
			obs.done(x, p.fname(j.f))
			gapEnd = gapEnd || w.gapEnd
		}
		if gaps && gapEnd {
			gaps = false
			continue
		}
		for _, k := range obs.order {
			o := obs.obs[k]
			r.ob(o.Rule, o.Construct, o.OK, o.Pos, "%s", o.Msg)
		}
		for f := range obs.funcs {
			r.funcs[f] = true
		}
		r.paths += obs.paths
		r.steps += obs.steps
		return
	}
}

// callees are the functions of the repository f calls by name.
func (p *Prog) callees(f *ssa.Function) []*ssa.Function {
	var out []*ssa.Function
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil && p.inRepo(g) {
					out = append(out, g)
				}
			}
		}
	}
	return out
}

// reach are the functions called by f, directly or not.
func (p *Prog) reach(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := p.callees(f)
	for len(work) > 0 {
		g := work[0]
		work = work[1:]
		if !seen[g] {
			seen[g] = true
			work = append(work, p.callees(g)...)
		}
	}
	return seen
}
