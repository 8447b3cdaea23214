package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Exec walks the paths of SSA functions over value numbered terms. It is a
// path sensitive data flow analysis: loops are summarised by one generic
// iteration, calls of repository functions are followed, everything else is an
// opaque term. No path condition is handed to a solver; branches are decided
// by constant propagation, equalities and interval bounds.
type Exec struct {
	linear bool // keep the facts for entails
	// sameIdx: the indices used so far, to write the same element the same way
	sameIdx map[*Term][]*Term
	facts   []*Poly // p <= 0 holds
	p       *Prog
	ts      *Terms

	trail   []func()
	mem     map[*Term]cell
	ver     map[string]int
	lits    map[*Term]bool
	rep     map[*Term]*Term
	dyn     map[*Term]types.Type
	bnd     map[string]bound
	closed  map[*Term][]*Term // maps whose keys are all known
	esc     map[*Term]bool
	ifcImpl map[string][]*ssa.Function
	site    map[*Term]string // alloc term to effect key
	quiet   int              // >0: probing, hooks are off

	events  []Event
	foralls []*forall
	stack   map[*ssa.Function]int
	depth   int

	h Hooks

	steps, maxSteps int
	paths           int
	deadline        time.Time
	fail            string // reason the walk could not be completed
	stop            bool
	visited         map[*ssa.Function]bool
	loopSeq         int
	inForall        bool
}

type cell struct {
	v   *Term
	key string
}

type bound struct {
	lo, hi       int64
	hasLo, hasHi bool
}

// Event is something that happened on the current path.
type Event struct {
	Kind string // call, store, mapset, loop, sort
	Name string
	Fn   *ssa.Function
	Pos  token.Pos
	Args []*Term
	Res  *Term

	times int     // of an event about every iteration: how often in each
	over  []*Term // the collections gone through, the innermost first
}

// Hooks are the observation points of a rule.
type Hooks struct {
	// Opaque reports whether calls of f are not followed.
	Opaque func(f *ssa.Function) bool
	// OpaqueCall is Opaque with the arguments of the call.
	OpaqueCall func(x *Exec, f *ssa.Function, args []*Term) bool
	Call       func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term)
	// Ret is called after a followed or opaque call returned.
	Ret func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term, res *Term)
	// Copy is called before the builtin copy changes anything.
	Copy func(x *Exec, dst, src *Term)
	// Framed tells that f leaves alone the memory rooted at addr. With addr nil:
	// that f leaves some alone, with f nil: that some f leave it alone.
	Framed func(f *ssa.Function, addr *Term) bool
	// Result is called after every opaque call, also where nothing is reported.
	Result func(x *Exec, in ssa.CallInstruction, callee *ssa.Function, args []*Term, res *Term)
	Store  func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term)
	MapSet func(x *Exec, fr *Frame, in ssa.Instruction, m, k, v *Term)
	// Loaded is called for every new term read from memory.
	Loaded func(x *Exec, addr, val *Term, t types.Type)
	// Assumed is called after a path fact was added.
	Assumed   func(x *Exec, c *Term, v bool)
	Load      func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term)
	Panic     func(x *Exec, fr *Frame, in ssa.Instruction, what string)
	Exit      func(x *Exec, fr *Frame, in ssa.Instruction, name string, args []*Term)
	Assert    func(x *Exec, fr *Frame, in *ssa.TypeAssert, v *Term)
	BackEdge  func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term)
	LoopEnter func(x *Exec, fr *Frame, lc *loopCtx)
	LoopExit  func(x *Exec, fr *Frame, lc *loopCtx)
	LoopLeave func(x *Exec, fr *Frame, lc *loopCtx, byHeader bool) // whenever a path leaves a loop
	// Peel tells to walk the last iteration of a loop on its own.
	Peel func(x *Exec, fr *Frame, lc *loopCtx) bool
	// Invariants suggests p <= 0 over the values carried round the loop.
	Invariants func(x *Exec, fr *Frame, lc *loopCtx) []*Poly
	Div        func(x *Exec, fr *Frame, in *ssa.BinOp, a, b *Term)
	Go         func(x *Exec, fr *Frame, in *ssa.Go, name string, args []*Term)
	Leaf       func(x *Exec, addr, val *Term, t types.Type)                    // before every scalar store
	Subst      func(x *Exec, name string, f *ssa.Function, args []*Term) *Term // replaces the result of a call
	Branch     func(x *Exec, fr *Frame, in *ssa.If, cond *Term)
	Ignore     func(name string) bool // calls without any effect of interest
	SkipDefers bool
	Deferred   func(x *Exec, fr *Frame, in *ssa.Defer, d deferred)
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]*Term
	caller *Frame
	call   ssa.CallInstruction
	args   []*Term
	defers []deferred
	loops  []*loopCtx
	k      func(res *Term)
	conc   map[*ssa.BasicBlock]int
}

type deferred struct {
	in   ssa.CallInstruction
	name string
	fn   *ssa.Function
	clo  *Term
	args []*Term
}

type loopCtx struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	fr     *Frame
	mark   int // term serial at entry
	entry  map[*ssa.Phi]*Term
	phi    map[*ssa.Phi]*Term // generic iteration value
	k      *Term              // iteration number
	recs   []backRec
	litLen int
	evMark int

	factMark int
	known    map[*Term]bool // literals known before the loop
	rng      *rangeInfo
	seq      int
	probe    bool
	onlyExit bool // the body is not entered
	noExit   bool // the condition of the header does not end the loop
	last     bool // the next back edge ends the loop
	check    func(next map[*ssa.Phi]*Term)
	kcur     *Poly // iterations done when the loop is left
	user     any
	pre      map[*Term]cell // memory cells overwritten by the generic state, with their value before
}

type rangeInfo struct {
	coll, ok, key, val *Term
}

type backRec struct {
	lits  map[*Term]bool
	facts []*Poly
	next  map[*ssa.Phi]*Term
}

// forall says that lits held for every iteration k of a completed loop.
type forall struct {
	lc   *loopCtx
	k    *Term
	lits map[*Term]bool
}

func newExec(p *Prog, h Hooks) *Exec {
	x := &Exec{
		p: p, ts: newTerms(), h: h,
		mem: map[*Term]cell{}, ver: map[string]int{}, lits: map[*Term]bool{}, rep: map[*Term]*Term{},
		dyn: map[*Term]types.Type{}, bnd: map[string]bound{}, closed: map[*Term][]*Term{},
		esc: map[*Term]bool{}, ifcImpl: map[string][]*ssa.Function{}, site: map[*Term]string{}, stack: map[*ssa.Function]int{},
		maxSteps: 40_000_000, deadline: time.Now().Add(240 * time.Second), visited: map[*ssa.Function]bool{},
	}
	return x
}

// ---- trail ----

func (x *Exec) mark() int { return len(x.trail) }
func (x *Exec) undo(m int) {
	for i := len(x.trail) - 1; i >= m; i-- {
		x.trail[i]()
		x.trail[i] = nil
	}
	x.trail = x.trail[:m]
}
func setM[K comparable, V any](x *Exec, m map[K]V, k K, v V) {
	old, had := m[k]
	m[k] = v
	x.trail = append(x.trail, func() {
		if had {
			m[k] = old
		} else {
			delete(m, k)
		}
	})
}
func delM[K comparable, V any](x *Exec, m map[K]V, k K) {
	old, had := m[k]
	if !had {
		return
	}
	delete(m, k)
	x.trail = append(x.trail, func() { m[k] = old })
}

func (x *Exec) event(e Event) {
	n := len(x.events)
	x.events = append(x.events, e)
	x.trail = append(x.trail, func() { x.events = x.events[:n] })
}

func (x *Exec) giveUp(f string, a ...any) {
	if x.fail == "" {
		x.fail = fmt.Sprintf(f, a...)
	}
	x.stop = true
}

// ---- memory ----

func rootOf(a *Term) *Term {
	for {
		switch a.op {
		case OpFieldAddr, OpIndexAddr, OpMapSlot:
			a = a.args[0]
		case OpSlice:
			a = a.args[0]
		default:
			return a
		}
	}
}

func (x *Exec) keyOf(addr *Term, t types.Type) string {
	switch addr.op {
	case OpFieldAddr:
		return "f:" + addr.aux
	case OpAlloc:
		return x.site[addr]
	case OpGlobal:
		return "g:" + addr.aux
	case OpIndexAddr:
		return "e:" + types.TypeString(t, nil)
	}
	return "c:" + types.TypeString(t, nil)
}

func (x *Exec) FieldAddr(base *Term, t types.Type, i int) *Term {
	st := t.Underlying().(*types.Struct)
	return x.ts.mk(OpFieldAddr, structName(t)+":"+st.Field(i).Name(), nil, base)
}

func (x *Exec) verOf(key string) int { return x.ver[key] }

// mkStruct makes a structure, a copy of all the fields of one is itself.
func (x *Exec) mkStruct(t types.Type, as []*Term) *Term {
	if len(as) > 0 {
		name := structName(t) + ":"
		st := t.Underlying().(*types.Struct)
		all := true
		for i, a := range as {
			if a.op != OpField || a.aux != name+st.Field(i).Name() || a.args[0] != as[0].args[0] {
				all = false
				break
			}
		}
		if all {
			return as[0].args[0]
		}
	}
	return x.ts.mk(OpStruct, "", t, as...)
}

func (x *Exec) load(addr *Term, t types.Type) *Term {
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() <= 40 {
		var as []*Term
		for i := 0; i < st.NumFields(); i++ {
			as = append(as, x.load(x.FieldAddr(addr, t, i), st.Field(i).Type()))
		}
		return x.mkStruct(t, as)
	}
	if c, ok := x.mem[addr]; ok {
		return c.v
	}
	key := x.keyOf(addr, t)
	ver := x.verOf(key)
	if r := rootOf(addr); r.op == OpAlloc {
		if w := x.ver[x.site[r]]; w > ver || x.p.privates()[x.site[r]] {
			ver = w
		}
	}
	if addr.op == OpIndexAddr {
		if r := rootOf(addr); r.op == OpAlloc {
			if w := x.ver[fmt.Sprint("ea:", r.id)]; w > ver {
				ver = w
			}
			if at, ok := r.typ.Underlying().(*types.Array); ok && ver == 0 && addr.args[1].isConst() && addr.args[0] == r {
				return x.zero(at.Elem())
			}
		}
	}
	v := x.ts.mk(OpLoad, fmt.Sprint(ver), nil, addr)
	if v.ser == 0 {
		v.ser = ver
	}
	x.typeFacts(v, t)
	if x.h.Loaded != nil {
		x.h.Loaded(x, addr, v, t)
	}
	return v
}

// typeFacts adds what is known of any value of type t.
func (x *Exec) typeFacts(v *Term, t types.Type) {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		x.assumeLE0(polyConst(0).add(x.ts.Poly(v), -1))
	}
}

func (x *Exec) store(addr, v *Term, t types.Type) {
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() <= 40 {
		for i := 0; i < st.NumFields(); i++ {
			x.store(x.FieldAddr(addr, t, i), x.Field(v, t, i), st.Field(i).Type())
		}
		return
	}
	key := x.keyOf(addr, t)
	if v.op == OpAlloc || v.op == OpFieldAddr || v.op == OpIndexAddr || v.op == OpSlice || v.op == OpIface || v.op == OpStruct || v.op == OpAppend || v.op == OpClosure {
		x.escape(v)
	}
	// Other names of the same memory.
	ra := rootOf(addr)
	if !(addr.op == OpAlloc || addr.op == OpGlobal) {
		var kill []*Term
		for a, c := range x.mem {
			if c.key == key && a != addr && x.mayAlias(a, addr) {
				kill = append(kill, a)
			} else if tt, ok := x.p.takenFields()[c.key]; ok && key == "c:"+tt {
				if r := rootOf(a); r.op != OpAlloc || x.esc[r] {
					kill = append(kill, a)
				}
			}
		}
		for _, a := range kill {
			delM(x, x.mem, a)
		}
		if ra.op != OpAlloc {
			x.bump(key)
			if strings.HasPrefix(key, "c:") {
				for k, t := range x.p.takenFields() {
					if key == "c:"+t {
						x.bump(k)
					}
				}
			}
		} else if addr.op == OpIndexAddr && !addr.args[1].isConst() {
			x.bump(fmt.Sprint("ea:", ra.id))
		}
	}
	if x.h.Leaf != nil && x.quiet == 0 {
		x.h.Leaf(x, addr, v, t)
	}
	setM(x, x.mem, addr, cell{v, key})
}

func (x *Exec) bump(key string) {
	x.ts.ser++
	setM(x, x.ver, key, x.ts.ser)
}

// mayAlias tells if two distinct address terms with the same key may denote
// the same memory.
func (x *Exec) mayAlias(a, b *Term) bool {
	if a.op == OpFieldAddr && b.op == OpFieldAddr {
		if a.aux != b.aux {
			return false // different fields that hold the same type
		}
		return x.mayPointSame(a.args[0], b.args[0])
	}
	if a.op == OpIndexAddr && b.op == OpIndexAddr {
		ra, rb := rootOf(a), rootOf(b)
		if ra != rb && (ra.op == OpAlloc || rb.op == OpAlloc) {
			return false
		}
		if a.args[0] == b.args[0] {
			if d, ok := x.ts.Poly(a.args[1]).add(x.ts.Poly(b.args[1]), -1).konst(); ok && d != 0 {
				return false
			}
		}
		return true
	}
	if a.op == OpMapSlot && b.op == OpMapSlot {
		return x.eq(a.args[0], b.args[0]) != no && x.eq(a.args[1], b.args[1]) != no
	}
	return x.mayPointSame(a, b)
}

// fieldsOnly tells that an address is that of a field of a field... of its root.
func fieldsOnly(a *Term) bool {
	if a.op != OpFieldAddr {
		return false
	}
	for a.op == OpFieldAddr {
		a = a.args[0]
	}
	return a == rootOf(a)
}

func (x *Exec) mayPointSame(a, b *Term) bool {
	if a == b {
		return true
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra == rb && a.op == b.op && (a.op == OpFieldAddr || a.op == OpIndexAddr) {
		return x.mayAlias(a, b)
	}
	if ra == rb && (a == ra && fieldsOnly(b) || b == ra && fieldsOnly(a)) {
		return false // a whole and a part of it are not of one type
	}
	fresh := func(t *Term) bool { return t.op == OpAlloc || t.op == OpGlobal }
	if ra != rb && (fresh(ra) || fresh(rb)) {
		return false
	}
	if l, ok := x.lits[x.ts.mk(OpBin, "==", nil, order(a, b)...)]; ok && !l {
		return false
	}
	return true
}

func (x *Exec) escape(v *Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OpAlloc && !x.esc[t] {
			setM(x, x.esc, t, true)
			// what it holds can be reached as well
			for a, c := range x.mem {
				if rootOf(a) == t {
					rec(c.v)
				}
			}
		}
		switch t.op {
		case OpAlloc, OpFieldAddr, OpIndexAddr, OpSlice, OpIface, OpStruct, OpAppend, OpClosure, OpTuple:
			for _, a := range t.args {
				rec(a)
			}
		}
	}
	rec(v)
}

// havoc forgets the memory described by e. With keepLocal, objects whose
// address never left the walked functions are kept.
func (x *Exec) havoc(e *effects, keepLocal bool, save map[*Term]cell) {
	x.havocBut(e, keepLocal, save, nil)
}

// havocBut keeps what the functions of the hook Framed leave alone: rest is
// what else is written, nil for nothing.
func (x *Exec) havocBut(e *effects, keepLocal bool, save map[*Term]cell, rest *effects) {
	if len(e.w) == 0 && !e.all {
		return
	}
	var kill []*Term
	for a, c := range x.mem {
		r := rootOf(a)
		if r.op == OpAlloc && x.p.privates()[x.site[r]] || !e.all && !e.w[c.key] && !x.cellKilled(c.key, a, e) {
			if r.op != OpAlloc || !(e.w[x.site[r]+"|*"] || e.w[x.site[r]+"|"+c.key]) {
				continue
			}
		}
		if keepLocal && r.op == OpAlloc && !x.esc[r] {
			continue
		}
		if rest != nil && !rest.all && !rest.w[c.key] && !x.cellKilled(c.key, a, rest) && x.h.Framed(nil, a) {
			continue
		}
		kill = append(kill, a)
	}
	sort.Slice(kill, func(i, j int) bool { return kill[i].id < kill[j].id })
	for _, a := range kill {
		if save != nil {
			save[a] = x.mem[a]
		}
		delM(x, x.mem, a)
	}
	var keys []string
	for k := range e.w {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if strings.HasPrefix(k, "a:") {
			k, _, _ = strings.Cut(k, "|")
		}
		x.bump(k)
	}
	for k, t := range x.p.takenFields() {
		if e.w["c:"+t] {
			x.bump(k)
		}
	}
	if e.all {
		for k := range x.ver {
			x.bump(k)
		}
	}
	for m := range x.closed {
		if keepLocal && !x.esc[m] && m.op == OpMap && !strings.HasPrefix(m.aux, "g:") {
			if _, e := x.esc[m]; !e {
				continue
			}
		}
		if e.all || (e.w["m:"+m.typKey()] && !strings.HasPrefix(m.aux, "const:")) {
			delM(x, x.closed, m)
		}
	}
}

func (t *Term) typKey() string {
	if t.typ == nil {
		return "?"
	}
	return types.TypeString(t.typ.Underlying(), nil)
}

// cellKilled: a write through a plain pointer to T reaches any addressable T.
func (x *Exec) cellKilled(key string, a *Term, e *effects) bool {
	if a.op == OpAlloc && a.typ != nil {
		return e.w["c:"+types.TypeString(a.typ, nil)]
	}
	if t, ok := x.p.takenFields()[key]; ok {
		return e.w["c:"+t]
	}
	return false
}

// ---- values ----

func (x *Exec) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.ts.Bool(false)
		case u.Info()&types.IsString != 0:
			return x.ts.Str("")
		case u.Info()&types.IsNumeric != 0:
			if u.Info()&types.IsFloat != 0 {
				return x.ts.Const(constant.MakeFloat64(0))
			}
			return x.ts.Int(0)
		}
		return x.ts.Nil()
	case *types.Struct:
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, x.zero(u.Field(i).Type()))
		}
		return x.ts.mk(OpStruct, "", t, as...)
	case *types.Array:
		return x.ts.mk(OpZero, types.TypeString(t, nil), nil)
	}
	return x.ts.Nil()
}

func (x *Exec) Field(v *Term, t types.Type, i int) *Term {
	if v.op == OpStruct && i < len(v.args) {
		return v.args[i]
	}
	st := t.Underlying().(*types.Struct)
	return x.ts.mk(OpField, structName(t)+":"+st.Field(i).Name(), nil, v)
}

func (x *Exec) find(t *Term) *Term {
	for {
		r, ok := x.rep[t]
		if !ok {
			return t
		}
		t = r
	}
}

type tri int8

const (
	unknown tri = iota
	yes
	no
)

func triOf(b bool) tri {
	if b {
		return yes
	}
	return no
}

func (x *Exec) isNumeric(t *Term) bool {
	switch t.op {
	case OpConst:
		return t.cv.Kind() == constant.Int || t.cv.Kind() == constant.Float
	case OpNil, OpIface, OpAlloc, OpStruct, OpMap, OpFunc, OpClosure:
		return false
	}
	return true
}

func (x *Exec) eq(a, b *Term) tri {
	a, b = x.find(a), x.find(b)
	if r, ok := x.ts.eqConst(a, b); ok {
		return triOf(r)
	}
	if l, ok := x.lits[x.ts.mk(OpBin, "==", nil, order(a, b)...)]; ok {
		return triOf(l)
	}
	if a.op == OpIface && b.op == OpIface {
		if !types.Identical(a.typ, b.typ) {
			return no
		}
		return x.eq(a.args[0], b.args[0])
	}
	if (a.op == OpNil && x.dyn[b] != nil) || (b.op == OpNil && x.dyn[a] != nil) {
		return no
	}
	if a.op == OpSlice && b.op == OpNil || b.op == OpSlice && a.op == OpNil {
		return unknown
	}
	if a.op == OpAlloc && b.op == OpAlloc {
		return no
	}
	if x.isNumeric(a) && x.isNumeric(b) {
		d := x.ts.Poly(a).add(x.ts.Poly(b), -1)
		if c, ok := d.konst(); ok {
			return triOf(c == 0)
		}
		bd := x.bounds(d)
		if (bd.hasLo && bd.lo > 0) || (bd.hasHi && bd.hi < 0) {
			return no
		}
		if bd.hasLo && bd.hasHi && bd.lo == 0 && bd.hi == 0 {
			return yes
		}
	}
	return unknown
}

// bounds computes an interval for p.
func (x *Exec) bounds(p *Poly) bound {
	if c, ok := p.konst(); ok {
		return bound{c, c, true, true}
	}
	q, c, neg := p.split()
	r := x.bnd[q.key()]
	// interval arithmetic over monomials, as an alternative
	alt := bound{0, 0, true, true}
	for _, m := range q.m {
		mb := x.monBound(m)
		if m.c > 0 {
			alt.hasLo = alt.hasLo && mb.hasLo
			alt.hasHi = alt.hasHi && mb.hasHi
			alt.lo += m.c * mb.lo
			alt.hi += m.c * mb.hi
		} else {
			alt.hasLo = alt.hasLo && mb.hasHi
			alt.hasHi = alt.hasHi && mb.hasLo
			alt.lo += m.c * mb.hi
			alt.hi += m.c * mb.lo
		}
	}
	if alt.hasLo && (!r.hasLo || alt.lo > r.lo) {
		r.lo, r.hasLo = alt.lo, true
	}
	if alt.hasHi && (!r.hasHi || alt.hi < r.hi) {
		r.hi, r.hasHi = alt.hi, true
	}
	if neg {
		r = bound{-r.hi, -r.lo, r.hasHi, r.hasLo}
	}
	// split returned p = q + c, or p = -(q) + ... with sign folded into c
	if neg {
		c = -c
	}
	if r.hasLo {
		r.lo += c
	}
	if r.hasHi {
		r.hi += c
	}
	return r
}

func (x *Exec) atomBound(a *Term) bound {
	if r := x.find(a); r != a {
		if i, ok := r.intVal(); ok {
			return bound{i, i, true, true}
		}
	}
	p := polyAtom(a)
	q, _, _ := p.split()
	b := x.bnd[q.key()]
	switch a.op {
	case OpLen:
		if !b.hasLo || b.lo < 0 {
			b.lo, b.hasLo = 0, true
		}
	case OpQuot:
		n, d := x.bounds(x.ts.Poly(a.args[0])), x.bounds(x.ts.Poly(a.args[1]))
		if n.hasLo && n.lo >= 0 && d.hasLo && d.lo >= 1 {
			if !b.hasLo || b.lo < 0 {
				b.lo, b.hasLo = 0, true
			}
		}
	}
	return b
}

func (x *Exec) monBound(m monomial) bound {
	r := bound{1, 1, true, true}
	for _, a := range m.atoms {
		b := x.atomBound(a)
		if !(r.hasLo && r.lo >= 0 && b.hasLo && b.lo >= 0) {
			if len(m.atoms) == 1 {
				return b
			}
			return bound{}
		}
		r.lo *= b.lo
		if r.hasHi && b.hasHi && b.hi < 1<<30 && r.hi < 1<<30 {
			r.hi *= b.hi
		} else {
			r.hasHi = false
			r.hi = 0
		}
	}
	return r
}

// assumeLE0 records p <= 0 and reports false on contradiction.
func (x *Exec) assumeLE0(p *Poly) bool {
	if c, ok := p.konst(); ok {
		return c <= 0
	}
	bd := x.bounds(p)
	if bd.hasLo && bd.lo > 0 {
		return false
	}
	x.addFact(p)
	q, c, neg := p.split()
	k := q.key()
	b := x.bnd[k]
	if !neg { // q + c <= 0
		hi := -c
		if !b.hasHi || hi < b.hi {
			b.hi, b.hasHi = hi, true
			setM(x, x.bnd, k, b)
		}
	} else { // -(q + c) <= 0, split negated both: p = -(q) - c
		lo := -c
		if !b.hasLo || lo > b.lo {
			b.lo, b.hasLo = lo, true
			setM(x, x.bnd, k, b)
		}
	}
	if b.hasLo && b.hasHi && b.lo == b.hi {
		x.linkConst(q, b.lo)
	}
	return !(b.hasLo && b.hasHi && b.lo > b.hi)
}

// linkConst records that q equals c when q is a single value.
func (x *Exec) linkConst(q *Poly, c int64) {
	if len(q.m) != 1 {
		return
	}
	for _, m := range q.m {
		if m.c == 1 && len(m.atoms) == 1 {
			a := x.find(m.atoms[0])
			if !a.isConst() {
				setM(x, x.rep, a, x.ts.Int(c))
			}
		}
	}
}

// provesLE0 tells if p <= 0 follows.
func (x *Exec) provesLE0(p *Poly) bool {
	b := x.bounds(x.substPoly(p))
	if b.hasHi && b.hi <= 0 {
		return true
	}
	b = x.bounds(p)
	return b.hasHi && b.hi <= 0
}

// substPoly replaces atoms known to be equal to other terms.
func (x *Exec) substPoly(p *Poly) *Poly {
	out := polyConst(0)
	for _, m := range p.m {
		t := polyConst(m.c)
		for _, a := range m.atoms {
			r := x.find(a)
			if r != a && x.isNumeric(r) {
				t = t.mul(x.substPoly(x.ts.Poly(r)))
			} else if a.op == OpQuot {
				t = t.mul(x.ts.quotKind(x.substPoly(x.ts.Poly(a.args[0])), x.substPoly(x.ts.Poly(a.args[1])), a.aux))
			} else {
				t = t.mul(polyAtom(a))
			}
		}
		out = out.add(t, 1)
	}
	return out
}

// same tells if two numeric terms are known to be equal.
func (x *Exec) same(a, b *Term) bool {
	if a == b || x.find(a) == x.find(b) {
		return true
	}
	d := x.substPoly(x.ts.Poly(a).add(x.ts.Poly(b), -1))
	if c, ok := d.konst(); ok {
		return c == 0
	}
	bd := x.bounds(d)
	return bd.hasLo && bd.hasHi && bd.lo == 0 && bd.hi == 0
}

func (x *Exec) samePoly(p, q *Poly) bool {
	d := x.substPoly(p.add(q, -1))
	if c, ok := d.konst(); ok {
		return c == 0
	}
	bd := x.bounds(d)
	return bd.hasLo && bd.hasHi && bd.lo == 0 && bd.hi == 0
}

func (x *Exec) dynType(v *Term) types.Type {
	v = x.find(v)
	if v.op == OpIface {
		return v.typ
	}
	return x.dyn[v]
}

func (x *Exec) assertOk(v *Term, T types.Type) tri {
	v = x.find(v)
	if v.op == OpNil {
		return no
	}
	if d := x.dynType(v); d != nil {
		if it, ok := T.Underlying().(*types.Interface); ok {
			return triOf(types.Implements(d, it))
		}
		return triOf(types.Identical(d, T))
	}
	if l, ok := x.lits[x.ts.mk(OpAssertOk, "", T, v)]; ok {
		return triOf(l)
	}
	return unknown
}

// truth evaluates a boolean term under the facts of the path.
func (x *Exec) truth(c *Term) tri {
	c = x.find(c)
	if c.isTrue() {
		return yes
	}
	if c.isFalse() {
		return no
	}
	if c.op == OpNot {
		switch x.truth(c.args[0]) {
		case yes:
			return no
		case no:
			return yes
		}
		return unknown
	}
	if l, ok := x.lits[c]; ok {
		return triOf(l)
	}
	if r := x.truth1(c); r != unknown {
		return r
	}
	return x.forallTruth(c)
}

// forallTruth decides c as an instance of what a completed loop established
// for each of its iterations.
func (x *Exec) forallTruth(c *Term) tri {
	if len(x.foralls) == 0 || x.inForall {
		return unknown
	}
	switch c.op {
	case OpAssertOk, OpBin:
	default:
		return unknown
	}
	x.inForall = true
	defer func() { x.inForall = false }()
	for i := len(x.foralls) - 1; i >= 0; i-- {
		fa := x.foralls[i]
		for l, v := range fa.lits {
			if l.op != c.op || l.aux != c.aux {
				continue
			}
			var j *Term
			if !x.unify(l, c, fa.k, &j) || j == nil {
				continue
			}
			if x.inRange(fa, j) {
				return triOf(v)
			}
		}
	}
	return unknown
}

// unify matches pattern p, in which k is free, against t.
func (x *Exec) unify(p, t, k *Term, j **Term) bool {
	t = x.find(t)
	if p == k {
		if *j == nil {
			*j = t
			return true
		}
		return *j == t || x.same(*j, t)
	}
	if p == t || x.find(p) == t {
		return true
	}
	if !p.has(k) {
		return false
	}
	if p.op != t.op || len(p.args) != len(t.args) {
		return false
	}
	if p.aux != t.aux && p.op != OpLoad {
		return false
	}
	if p.op == OpLoad && p.aux != t.aux {
		return false
	}
	if p.typ != nil && (t.typ == nil || !types.Identical(p.typ, t.typ)) {
		return false
	}
	if p.op == OpBin && p.aux == "==" {
		j0 := *j
		if x.unify(p.args[0], t.args[0], k, j) && x.unify(p.args[1], t.args[1], k, j) {
			return true
		}
		*j = j0
		return x.unify(p.args[0], t.args[1], k, j) && x.unify(p.args[1], t.args[0], k, j)
	}
	for i := range p.args {
		if !x.unify(p.args[i], t.args[i], k, j) {
			return false
		}
	}
	return true
}

// subst replaces k by v in t.
func (x *Exec) substTerm(t, k, v *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == k {
			return v
		}
		if r, ok := memo[t]; ok {
			return r
		}
		changed := false
		as := make([]*Term, len(t.args))
		for i, a := range t.args {
			as[i] = rec(a)
			changed = changed || as[i] != a
		}
		r := t
		if changed {
			if t.op == OpBin && t.aux == "==" {
				as = order(as[0], as[1])
			}
			r = x.ts.mk(t.op, t.aux, t.typ, as...)
			if r.fn == nil {
				r.fn = t.fn
			}
			if p := x.ts.Poly(r); r.op == OpBin && (t.aux == "+" || t.aux == "*" || t.aux == "-") {
				r = x.ts.polyTerm(p)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// inRange tells if iteration j of a completed loop took place.
func (x *Exec) inRange(fa *forall, j *Term) bool {
	if fa.lc.rng != nil {
		return true
	}
	ok := false
	for l, v := range fa.lits {
		if l.op != OpBin || l.aux != "<" || !l.has(fa.k) {
			continue
		}
		if !l.contains(func(t *Term) bool { return t.op == OpLen }) {
			continue
		}
		if x.truth(x.substTerm(l, fa.k, j)) != triOf(v) {
			return false
		}
		ok = true
	}
	return ok && x.provesLE0(polyConst(0).add(x.ts.Poly(j), -1))
}

func (x *Exec) truth1(c *Term) tri {
	switch c.op {
	case OpBin:
		switch c.aux {
		case "==":
			return x.eq(c.args[0], c.args[1])
		case "<":
			a, b := x.find(c.args[0]), x.find(c.args[1])
			if a.isConst() && b.isConst() && a.cv.Kind() == constant.String {
				return triOf(constant.Compare(a.cv, token.LSS, b.cv))
			}
			if x.isNumeric(a) && x.isNumeric(b) {
				d := x.substPoly(x.ts.Poly(a).add(x.ts.Poly(b), -1))
				bd := x.bounds(d)
				if bd.hasHi && bd.hi < 0 {
					return yes
				}
				if bd.hasLo && bd.lo >= 0 {
					return no
				}
				if bd.hasHi && bd.hi == 0 {
					if v, ok := x.lits[x.ts.mk(OpBin, "==", nil, order(a, b)...)]; ok && !v {
						return yes
					}
				}
			}
		}
	case OpAssertOk:
		return x.assertOk(c.args[0], c.typ)
	}
	return unknown
}

// assume records that c is v; false means the path is infeasible.
func (x *Exec) assume(c *Term, v bool) bool {
	c = x.find(c)
	for c.op == OpNot {
		c = c.args[0]
		v = !v
	}
	switch x.truth(c) {
	case yes:
		return v
	case no:
		return !v
	}
	if x.sameIdx != nil && x.refutes(c, v) {
		return false
	}
	setM(x, x.lits, c, v)
	if !x.learn(c, v) {
		return false
	}
	if x.h.Assumed != nil {
		x.h.Assumed(x, c, v)
	}
	return true
}

// learn draws the conclusions of a new path fact.
func (x *Exec) learn(c *Term, v bool) bool {
	switch c.op {
	case OpBin:
		a, b := x.find(c.args[0]), x.find(c.args[1])
		num := x.isNumeric(a) && x.isNumeric(b)
		switch c.aux {
		case "==":
			e := x.ts.mk(OpBin, "==", nil, order(a, b)...)
			if e != c {
				setM(x, x.lits, e, v)
			}
			if v {
				x.inferDyn(a, b)
				x.inferDyn(b, a)
				switch {
				case b.isConst() || b.op == OpNil:
					setM(x, x.rep, a, b)
				case a.isConst() || a.op == OpNil:
					setM(x, x.rep, b, a)
				case a.id < b.id:
					setM(x, x.rep, b, a)
				default:
					setM(x, x.rep, a, b)
				}
				if num {
					d := x.ts.Poly(a).add(x.ts.Poly(b), -1)
					return x.assumeLE0(d) && x.assumeLE0(polyConst(0).add(d, -1))
				}
			} else if num {
				d := x.ts.Poly(a).add(x.ts.Poly(b), -1)
				bd := x.bounds(d)
				if bd.hasLo && bd.lo == 0 {
					return x.assumeLE0(polyConst(1).add(d, -1))
				}
				if bd.hasHi && bd.hi == 0 {
					return x.assumeLE0(d.add(polyConst(1), 1))
				}
			}
		case "<":
			if num {
				d := x.ts.Poly(a).add(x.ts.Poly(b), -1)
				if v {
					return x.assumeLE0(d.add(polyConst(1), 1))
				}
				return x.assumeLE0(polyConst(0).add(d, -1))
			}
		}
	case OpAssertOk:
		if v && !types.IsInterface(c.typ) {
			o := x.find(c.args[0])
			setM(x, x.dyn, o, c.typ)
			return x.dynConsistent(o, c.typ)
		}
	}
	return true
}

// inferDyn learns the dynamic type of v from v.M() == "constant" when exactly
// one implementation of M answers that constant.
func (x *Exec) inferDyn(call, k *Term) {
	if call.op != OpCall || len(call.args) != 1 || !k.isConst() {
		return
	}
	name, _, _ := strings.Cut(call.aux, "@")
	var T types.Type
	n := 0
	for _, f := range x.ifcImpl[name] {
		cs, ok := constResults(f)
		if !ok {
			return
		}
		for _, c := range cs {
			if fconst(c, x) == k {
				n++
				T = f.Signature.Recv().Type()
				break
			}
		}
	}
	if n == 1 {
		o := x.find(call.args[0])
		if x.dynType(o) == nil {
			setM(x, x.dyn, o, T)
		}
	}
}

// dynConsistent tells whether what is known of results of methods of o agrees
// with the constants these methods answer for dynamic type T.
func (x *Exec) dynConsistent(o *Term, T types.Type) bool {
	for l, v := range x.lits {
		if l.op != OpBin || l.aux != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			call, k := l.args[i], l.args[1-i]
			if call.op != OpCall || len(call.args) != 1 || !k.isConst() || x.find(call.args[0]) != o {
				continue
			}
			name, _, _ := strings.Cut(call.aux, "@")
			for _, f := range x.ifcImpl[name] {
				if !types.Identical(f.Signature.Recv().Type(), T) {
					continue
				}
				cs, ok := constResults(f)
				if ok && len(cs) == 1 && (fconst(cs[0], x) == k) != v {
					return false
				}
			}
		}
	}
	return true
}

// constResults lists the constants a method returns; false if it may return anything else.
func constResults(f *ssa.Function) ([]*ssa.Const, bool) {
	var out []*ssa.Const
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if r, ok := in.(*ssa.Return); ok {
				if len(r.Results) != 1 {
					return nil, false
				}
				c, ok := r.Results[0].(*ssa.Const)
				if call, isCall := r.Results[0].(*ssa.Call); isCall && f.Synthetic != "" {
					if g := call.Call.StaticCallee(); g != nil && g != f {
						cs, ok := constResults(g)
						if !ok {
							return nil, false
						}
						out = append(out, cs...)
						continue
					}
				}
				if !ok {
					return nil, false
				}
				out = append(out, c)
			}
		}
	}
	return out, len(out) > 0
}

// branch runs f for both values of c that are possible.
func (x *Exec) branch(c *Term, f func(bool)) {
	if x.stop {
		return
	}
	switch x.truth(c) {
	case yes:
		f(true)
		return
	case no:
		f(false)
		return
	}
	m := x.mark()
	if x.assume(c, true) {
		f(true)
	}
	x.undo(m)
	if x.stop {
		return
	}
	if x.assume(c, false) {
		f(false)
	}
	x.undo(m)
}

func fconst(c *ssa.Const, x *Exec) *Term {
	if c.Value == nil {
		return x.zero(c.Type())
	}
	v := c.Value
	if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		v = constant.ToFloat(v)
		if i := constant.ToInt(v); i.Kind() == constant.Int {
			v = i
		}
	}
	return x.ts.Const(v)
}

func (x *Exec) val(fr *Frame, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return fconst(v, x)
	case *ssa.Global:
		return x.ts.mk(OpGlobal, v.String(), nil)
	case *ssa.Function:
		t := x.ts.mk(OpFunc, v.String(), nil)
		t.fn = v
		return t
	case *ssa.Builtin:
		return x.ts.mk(OpFunc, "builtin "+v.Name(), nil)
	}
	if t, ok := fr.env[v]; ok {
		return t
	}
	return x.ts.mk(OpSym, "undef:"+v.Name()+":"+fr.fn.String(), nil)
}

func (x *Exec) set(fr *Frame, v ssa.Value, t *Term) { setM(x, fr.env, v, t) }

// ---- walking ----

// run walks f with the given arguments; k is called at every return.
func (x *Exec) run(f *ssa.Function, args []*Term, k func(fr *Frame, res *Term)) {
	var fr *Frame
	fr = x.newFrame(f, args, nil, nil, nil)
	fr.k = func(res *Term) { k(fr, res) }
	x.enter(fr)
}

func (x *Exec) newFrame(f *ssa.Function, args, free []*Term, caller *Frame, in ssa.CallInstruction) *Frame {
	fr := &Frame{fn: f, env: map[ssa.Value]*Term{}, caller: caller, call: in, args: args, conc: map[*ssa.BasicBlock]int{}}
	for i, p := range f.Params {
		if i < len(args) {
			fr.env[p] = args[i]
			x.typeFacts(args[i], p.Type())
		} else {
			fr.env[p] = x.ts.mk(OpParam, p.Name(), nil)
		}
	}
	for i, v := range f.FreeVars {
		if i < len(free) {
			fr.env[v] = free[i]
		} else {
			fr.env[v] = x.ts.mk(OpSym, "free:"+v.Name()+":"+f.String(), nil)
		}
	}
	return fr
}

// params makes symbolic arguments.
func (x *Exec) params(f *ssa.Function) []*Term {
	var out []*Term
	for i, p := range f.Params {
		out = append(out, x.ts.mk(OpParam, fmt.Sprintf("%s", p.Name()), nil))
		_ = i
	}
	return out
}

func (x *Exec) enter(fr *Frame) {
	if len(fr.fn.Blocks) == 0 {
		x.giveUp("function %s has no body", fr.fn)
		return
	}
	x.visited[fr.fn] = true
	x.stack[fr.fn]++
	x.depth++
	x.block(fr, fr.fn.Blocks[0], nil)
	x.depth--
	x.stack[fr.fn]--
}

// leave returns from fr and goes on in the caller, with the call stack as it was there.
func (x *Exec) leave(fr *Frame, res *Term) {
	x.stack[fr.fn]--
	x.depth--
	fr.k(res)
	x.depth++
	x.stack[fr.fn]++
}

func (x *Exec) block(fr *Frame, b, pred *ssa.BasicBlock) {
	if x.stop {
		return
	}
	loops := x.p.loopsOf(fr.fn)
	// Drop loop contexts that were left.
	for len(fr.loops) > 0 && !fr.loops[len(fr.loops)-1].blocks[b] {
		lc := fr.loops[len(fr.loops)-1]
		if lc.probe || lc.last && !lc.onlyExit {
			return
		}
		if x.h.LoopLeave != nil && x.quiet == 0 {
			x.h.LoopLeave(x, fr, lc, pred == lc.header)
		}
		old := fr.loops
		fr.loops = fr.loops[:len(fr.loops)-1]
		x.trail = append(x.trail, func() { fr.loops = old })
	}
	body, isHeader := loops[b]
	if !isHeader {
		x.phis(fr, b, pred, nil)
		x.instrs(fr, b, x.firstNonPhi(b))
		return
	}
	back := pred != nil && body[pred]
	if back {
		// Find the context of this loop.
		if n := len(fr.loops); n > 0 && fr.loops[n-1].header == b {
			x.backEdge(fr, fr.loops[n-1], pred)
			return
		}
		if fr.conc[b] > 400 {
			x.giveUp("loop at %s unrolled too often", x.p.pos(b.Instrs[0].Pos()))
			return
		}
	}
	vals := x.phiVals(fr, b, pred)
	// Concrete iteration while the loop condition is decided.
	if x.concrete(fr, b, body, vals) {
		n := fr.conc[b]
		if !back {
			n = 0
		}
		setM(x, fr.conc, b, n+1)
		for p, v := range vals {
			x.set(fr, p, v)
		}
		x.instrs(fr, b, x.firstNonPhi(b))
		return
	}
	x.abstractLoop(fr, b, body, vals)
}

func (x *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	return i
}

func (x *Exec) phiVals(fr *Frame, b, pred *ssa.BasicBlock) map[*ssa.Phi]*Term {
	vals := map[*ssa.Phi]*Term{}
	if pred == nil {
		return vals
	}
	idx := -1
	for i, q := range b.Preds {
		if q == pred {
			idx = i
		}
	}
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = x.val(fr, p.Edges[idx])
	}
	return vals
}

func (x *Exec) phis(fr *Frame, b, pred *ssa.BasicBlock, _ any) {
	vals := x.phiVals(fr, b, pred)
	for p, v := range vals {
		x.set(fr, p, v)
	}
}

// exitCond returns the If that ends the header when one successor leaves the loop.
func exitCond(b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) *ssa.If {
	in, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return nil
	}
	if body[b.Succs[0]] != body[b.Succs[1]] {
		return in
	}
	return nil
}

func (x *Exec) concrete(fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, vals map[*ssa.Phi]*Term) bool {
	cond := exitCond(b, body)
	if cond == nil {
		return false
	}
	c0 := cond.Cond
	for {
		n, ok := c0.(*ssa.UnOp)
		if !ok || n.Op != token.NOT {
			break
		}
		c0 = n.X
	}
	if ph, ok := c0.(*ssa.Phi); ok && ph.Block() == b {
		// no number of iterations, a flag
		return false
	}
	m := x.mark()
	defer x.undo(m)
	for p, v := range vals {
		x.set(fr, p, v)
	}
	for _, in := range b.Instrs[x.firstNonPhi(b):] {
		switch in := in.(type) {
		case *ssa.BinOp:
			x.set(fr, in, x.binop(fr, in))
		case *ssa.UnOp:
			if in.Op == token.MUL {
				x.set(fr, in, x.load(x.addrOf(fr, in.X), in.Type()))
			} else if in.Op == token.NOT {
				x.set(fr, in, x.ts.Not(x.val(fr, in.X)))
			} else {
				return false
			}
		case *ssa.FieldAddr:
			x.set(fr, in, x.fieldAddr(fr, in))
		case *ssa.Call:
			bi, ok := in.Call.Value.(*ssa.Builtin)
			if !ok || bi.Name() != "len" {
				return false
			}
			x.set(fr, in, x.length(x.val(fr, in.Call.Args[0])))
		case *ssa.Next:
			it := x.val(fr, in.Iter)
			return it.op == OpCall && it.aux == "range" && x.closed[it.args[0]] != nil && x.rangeable(it)
		case *ssa.DebugRef:
		case *ssa.If:
			c := x.val(fr, in.Cond)
			// A condition that only a path fact decides is not a constant trip count.
			c = x.find(c)
			if c.isTrue() || c.isFalse() {
				return true
			}
			if c.op == OpBin || c.op == OpNot {
				return x.constCond(c)
			}
			return false
		default:
			return false
		}
	}
	return false
}

func (x *Exec) rangeable(it *Term) bool { return false }

func (x *Exec) constCond(c *Term) bool {
	for c.op == OpNot {
		c = c.args[0]
	}
	if c.op != OpBin {
		return false
	}
	a, b := x.find(c.args[0]), x.find(c.args[1])
	pa, oka := x.substPoly(x.ts.Poly(a)).konst()
	pb, okb := x.substPoly(x.ts.Poly(b)).konst()
	_, _ = pa, pb
	return oka && okb
}

func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Exec) abstractLoop(fr *Frame, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, vals map[*ssa.Phi]*Term) {
	m := x.mark()
	eff := x.p.effectsOfBlocks(body)
	x.loopSeq++
	lc := &loopCtx{header: b, blocks: body, fr: fr, entry: vals, phi: map[*ssa.Phi]*Term{}, seq: x.loopSeq, pre: map[*Term]cell{}}
	lc.known = map[*Term]bool{}
	for l := range x.lits {
		lc.known[l] = true
	}
	lc.mark = x.ts.ser
	lc.evMark = len(x.events)
	var rest *effects
	if x.h.Framed != nil {
		rest = x.p.effectsBut(body, func(f *ssa.Function) bool { return x.h.Framed(f, nil) })
	}
	x.havocBut(eff, false, lc.pre, rest)
	x.havocFreshLocals(fr, body)
	lc.k = x.ts.fresh(OpSym, fmt.Sprintf("i%d", lc.seq), nil)
	x.assumeLE0(polyConst(0).add(polyAtom(lc.k), -1))
	lc.kcur = polyAtom(lc.k)

	var ps []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			ps = append(ps, p)
		}
	}
	for _, p := range ps {
		// value unchanged by every back edge
		inv := true
		for i, q := range b.Preds {
			if body[q] && p.Edges[i] != p {
				inv = false
			}
		}
		if inv {
			lc.phi[p] = vals[p]
			continue
		}
		if isInteger(p.Type()) {
			if d, ok := constStep(p, b, body); ok {
				lc.phi[p] = x.ts.polyTerm(x.ts.Poly(vals[p]).add(polyAtom(lc.k).mul(polyConst(d)), 1))
				continue
			}
		}
		lc.phi[p] = x.ts.fresh(OpSym, p.Comment+"@loop", nil)
		x.typeFacts(lc.phi[p], p.Type())
	}
	// Probe for other inductive integers.
	probe := false
	for _, p := range ps {
		if isInteger(p.Type()) && lc.phi[p].op == OpSym && lc.phi[p].ser > lc.mark {
			probe = true
		}
	}
	if probe {
		steps := x.probeSteps(fr, lc)
		for p, d := range steps {
			lc.phi[p] = x.ts.polyTerm(x.ts.Poly(vals[p]).add(polyAtom(lc.k).mul(d), 1))
		}
	}
	if x.linear {
		for _, g := range x.loopInvariants(fr, lc) {
			x.assumeLE0(g)
		}
		if x.h.Invariants != nil {
			for _, g := range x.inductive(fr, lc, x.h.Invariants(x, fr, lc)) {
				x.assumeLE0(g)
			}
		}
	}
	x.pushLoop(fr, lc)
	for _, p := range ps {
		x.set(fr, p, lc.phi[p])
	}
	if x.h.LoopEnter != nil && x.quiet == 0 {
		x.h.LoopEnter(x, fr, lc)
	}
	if x.h.Peel == nil || exitCond(b, body) == nil || !x.h.Peel(x, fr, lc) {
		x.instrs(fr, b, x.firstNonPhi(b))
		x.undo(m)
		return
	}
	// all iterations that go on, and the ways out of the body
	lc.noExit = true
	m2 := x.mark()
	x.instrs(fr, b, x.firstNonPhi(b))
	x.undo(m2)
	// the last iteration
	if len(lc.recs) > 0 {
		lc.noExit, lc.last = false, true
		lc.kcur = polyAtom(lc.k).add(polyConst(1), 1)
		x.instrs(fr, b, x.firstNonPhi(b))
		lc.last = false
	}
	x.undo(m)
	// no iteration
	zero := *lc
	zero.noExit, zero.last, zero.onlyExit, zero.recs = false, false, true, nil
	zero.phi = vals
	zero.kcur = polyConst(0)
	x.pushLoop(fr, &zero)
	for _, p := range ps {
		x.set(fr, p, vals[p])
	}
	x.instrs(fr, b, x.firstNonPhi(b))
	x.undo(m)
}

// havocFreshLocals forgets SSA values computed inside the loop in earlier walks.
func (x *Exec) havocFreshLocals(fr *Frame, body map[*ssa.BasicBlock]bool) {}

func (x *Exec) pushLoop(fr *Frame, lc *loopCtx) {
	old := fr.loops
	fr.loops = append(append([]*loopCtx{}, fr.loops...), lc)
	x.trail = append(x.trail, func() { fr.loops = old })
}

// constStep recognises p = p + c on every back edge.
func constStep(p *ssa.Phi, b *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) (int64, bool) {
	var step int64
	have := false
	for i, q := range b.Preds {
		if !body[q] {
			continue
		}
		bo, ok := p.Edges[i].(*ssa.BinOp)
		if !ok || bo.X != ssa.Value(p) {
			return 0, false
		}
		c, ok := bo.Y.(*ssa.Const)
		if !ok || c.Value == nil {
			return 0, false
		}
		v, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			return 0, false
		}
		switch bo.Op {
		case token.ADD:
		case token.SUB:
			v = -v
		default:
			return 0, false
		}
		if have && v != step {
			return 0, false
		}
		step, have = v, true
	}
	return step, have
}

// probeSteps walks the loop body once to find integers that change by the
// same loop invariant amount in every iteration.
func (x *Exec) probeSteps(fr *Frame, lc *loopCtx) map[*ssa.Phi]*Poly {
	out := map[*ssa.Phi]*Poly{}
	recs, ok := x.probeLoop(fr, lc)
	if !ok {
		return out
	}
	for p, v := range lc.phi {
		if !isInteger(p.Type()) || v.op != OpSym || v.ser <= lc.mark {
			continue
		}
		var d *Poly
		ok := true
		for _, r := range recs {
			dd := x.ts.Poly(r.next[p]).add(x.ts.Poly(v), -1)
			if d != nil && !d.equal(dd) {
				ok = false
			}
			d = dd
		}
		if !ok {
			continue
		}
		for _, mo := range d.m {
			for _, a := range mo.atoms {
				if a.contains(func(t *Term) bool { return t.ser > lc.mark }) {
					ok = false
				}
			}
		}
		if ok {
			out[p] = d
		}
	}
	return out
}

// loopInvariants finds facts that hold in every iteration: what every iteration
// that continues the loop left behind for the next one, when it also holds at
// the start.
func (x *Exec) loopInvariants(fr *Frame, lc *loopCtx) []*Poly {
	recs, ok := x.probeLoop(fr, lc)
	if !ok {
		return nil
	}
	var out []*Poly
	seen := map[string]bool{}
	for _, f := range recs[0].facts {
		hasK, old := false, true
		for _, mo := range f.m {
			for _, a := range mo.atoms {
				if a == lc.k {
					hasK = true
				} else if a.contains(func(t *Term) bool { return t == lc.k || t.ser > lc.mark }) {
					old = false
				}
			}
		}
		if !hasK || !old {
			continue
		}
		all := true
		for _, r := range recs[1:] {
			in := false
			for _, g := range r.facts {
				in = in || g.equal(f)
			}
			all = all && in
		}
		g := polyAt(f, lc.k, polyAtom(lc.k).add(polyConst(1), -1))
		if !all || seen[g.key()] {
			continue
		}
		seen[g.key()] = true
		if x.entails(polyAt(g, lc.k, polyConst(0))) {
			out = append(out, g)
		}
	}
	return out
}

// inductive keeps the candidates that hold at the start and are preserved.
func (x *Exec) inductive(fr *Frame, lc *loopCtx, cands []*Poly) []*Poly {
	at := func(g *Poly, vals map[*ssa.Phi]*Term) *Poly {
		for p, v := range lc.phi {
			if v.op == OpSym && v.ser > lc.mark && vals[p] != nil && isInteger(p.Type()) {
				g = polyAt(g, v, polyAtom(x.ts.mk(OpSym, fmt.Sprint("tmp ", v.id), nil)))
			}
		}
		for p, v := range lc.phi {
			if v.op == OpSym && v.ser > lc.mark && vals[p] != nil && isInteger(p.Type()) {
				g = polyAt(g, x.ts.mk(OpSym, fmt.Sprint("tmp ", v.id), nil), x.ts.Poly(vals[p]))
			}
		}
		return g
	}
	var cur []*Poly
	for _, g := range cands {
		if x.entails(at(g, lc.entry)) {
			cur = append(cur, g)
		}
	}
	for len(cur) > 0 {
		m := x.mark()
		for _, g := range cur {
			x.assumeLE0(g)
		}
		alive := make([]bool, len(cur))
		for i := range alive {
			alive[i] = true
		}
		pl := *lc
		pl.check = func(next map[*ssa.Phi]*Term) {
			for i, g := range cur {
				if alive[i] && !x.entails(at(g, next)) {
					alive[i] = false
				}
			}
		}
		_, ok := x.probeLoop(fr, &pl)
		x.undo(m)
		if !ok {
			return nil
		}
		var left []*Poly
		for i, g := range cur {
			if alive[i] {
				left = append(left, g)
			}
		}
		if len(left) == len(cur) {
			return cur
		}
		cur = left
	}
	return nil
}

// polyAt replaces the atom k of f.
func polyAt(f *Poly, k *Term, v *Poly) *Poly {
	out := polyConst(0)
	for _, m := range f.m {
		t := polyConst(m.c)
		for _, a := range m.atoms {
			if a == k {
				t = t.mul(v)
			} else {
				t = t.mul(polyAtom(a))
			}
		}
		out = out.add(t, 1)
	}
	return out
}

// probeLoop walks the body of the loop once, quietly.
func (x *Exec) probeLoop(fr *Frame, lc *loopCtx) ([]backRec, bool) {
	m := x.mark()
	ev := len(x.events)
	x.quiet++
	saveSteps, savePaths := x.steps, x.paths
	probe := *lc
	probe.recs = nil
	probe.probe = true
	probe.factMark = len(x.facts)
	x.pushLoop(fr, &probe)
	for p, v := range lc.phi {
		x.set(fr, p, v)
	}
	oldBudget := x.maxSteps
	if x.maxSteps > x.steps+400_000 {
		x.maxSteps = x.steps + 400_000
	}
	wasFail, wasStop := x.fail, x.stop
	x.instrs(fr, lc.header, x.firstNonPhi(lc.header))
	aborted := x.stop && !wasStop
	x.fail, x.stop = wasFail, wasStop
	x.maxSteps = oldBudget
	x.quiet--
	x.undo(m)
	x.events = x.events[:ev]
	x.steps, x.paths = saveSteps, savePaths
	return probe.recs, !aborted && len(probe.recs) > 0
}

func (x *Exec) backEdge(fr *Frame, lc *loopCtx, pred *ssa.BasicBlock) {
	next := x.phiVals(fr, lc.header, pred)
	if lc.last {
		lc.last, lc.onlyExit = false, true
		for p, v := range next {
			x.set(fr, p, v)
		}
		x.instrs(fr, lc.header, x.firstNonPhi(lc.header))
		lc.last, lc.onlyExit = true, false
		return
	}
	if lc.check != nil {
		lc.check(next)
	}
	rec := backRec{lits: map[*Term]bool{}, next: next}
	for l, v := range x.lits {
		if !lc.known[l] {
			rec.lits[l] = v
		}
	}
	if x.linear && lc.probe {
		for _, f := range x.facts[lc.factMark:] {
			rec.facts = append(rec.facts, x.substPoly(f))
		}
	}
	lc.recs = append(lc.recs, rec)
	x.paths++
	if x.h.BackEdge != nil && x.quiet == 0 {
		x.h.BackEdge(x, fr, lc, next)
	}
}

func (x *Exec) addForall(lc *loopCtx, lits map[*Term]bool) {
	n := len(x.foralls)
	x.foralls = append(x.foralls, &forall{lc: lc, k: lc.k, lits: lits})
	x.trail = append(x.trail, func() { x.foralls = x.foralls[:n] })
}

// loopDone is called when the header's own condition ends the loop.
func (x *Exec) loopDone(fr *Frame, lc *loopCtx, cont func()) {
	// A boolean carried round the loop tells which iterations ran.
	var split *ssa.Phi
	for p, v := range lc.phi {
		if isBool(p.Type()) && v.op == OpSym && v.ser > lc.mark && lc.entry[p].isConst() {
			if split == nil || p.Name() < split.Name() {
				split = p
			}
		}
	}
	common := func(keep func(r backRec) bool) map[*Term]bool {
		var out map[*Term]bool
		for _, r := range lc.recs {
			if !keep(r) {
				continue
			}
			if out == nil {
				out = map[*Term]bool{}
				for l, v := range r.lits {
					out[l] = v
				}
				continue
			}
			for l, v := range out {
				if w, ok := r.lits[l]; !ok || w != v {
					delete(out, l)
				}
			}
		}
		return out
	}
	done := func() {
		if x.h.LoopExit != nil && x.quiet == 0 {
			x.h.LoopExit(x, fr, lc)
		}
		cont()
	}
	if split == nil {
		m := x.mark()
		if l := common(func(backRec) bool { return true }); l != nil {
			x.addForall(lc, l)
		} else if len(lc.recs) == 0 {
			// No iteration ever comes back: the loop ran zero times.
			if !x.assumeK0(lc) {
				x.undo(m)
				return
			}
		}
		done()
		x.undo(m)
		return
	}
	e := lc.entry[split]
	x.branch(x.ts.Bin(token.EQL, lc.phi[split], e, false), func(same bool) {
		m := x.mark()
		if same {
			// Is the flag sticky: once changed, never back?
			sticky := true
			for _, r := range lc.recs {
				n := r.next[split]
				if n == lc.phi[split] {
					continue
				}
				if n == e {
					sticky = false
				}
			}
			keep := func(r backRec) bool {
				n := r.next[split]
				return n == lc.phi[split] || !n.isConst() || n == e
			}
			if !sticky {
				keep = func(backRec) bool { return true }
			}
			if l := common(keep); l != nil {
				x.addForall(lc, l)
			}
		}
		done()
		x.undo(m)
	})
}

func (x *Exec) assumeK0(lc *loopCtx) bool {
	return x.assumeLE0(polyAtom(lc.k))
}

func (x *Exec) addrOf(fr *Frame, v ssa.Value) *Term { return x.find(x.val(fr, v)) }

func (x *Exec) fieldAddr(fr *Frame, in *ssa.FieldAddr) *Term {
	return x.FieldAddr(x.addrOf(fr, in.X), deref(in.X.Type()), in.Field)
}

func (x *Exec) length(v *Term) *Term {
	v = x.find(v)
	switch v.op {
	case OpConst:
		if s, ok := v.strVal(); ok {
			return x.ts.Int(int64(len(s)))
		}
	case OpNil:
		return x.ts.Int(0)
	case OpSlice:
		if v.args[2].op != OpNil {
			return x.ts.polyTerm(x.ts.Poly(v.args[2]).add(x.ts.Poly(v.args[1]), -1))
		}
		if v.args[0].op == OpAlloc {
			if a, ok := v.args[0].typ.Underlying().(*types.Array); ok {
				return x.ts.polyTerm(polyConst(a.Len()).add(x.ts.Poly(v.args[1]), -1))
			}
		}
		return x.ts.polyTerm(x.ts.Poly(x.length(v.args[0])).add(x.ts.Poly(v.args[1]), -1))
	case OpAppend:
		if v.aux == "..." {
			return x.ts.polyTerm(x.ts.Poly(x.length(v.args[0])).add(x.ts.Poly(x.length(v.args[1])), 1))
		}
		return x.ts.polyTerm(x.ts.Poly(x.length(v.args[0])).add(polyConst(int64(len(v.args)-1)), 1))
	case OpMap:
		if ks, ok := x.closed[v]; ok && len(ks) == 0 {
			return x.ts.Int(0)
		}
	}
	ver := ""
	if v.op == OpMap || v.typ != nil && isMap(v.typ) {
		ver = fmt.Sprint(x.ver["m:"+v.typKey()])
	}
	return x.ts.mk(OpLen, ver, nil, v)
}

func isMap(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

func (x *Exec) binop(fr *Frame, in *ssa.BinOp) *Term {
	a, b := x.val(fr, in.X), x.val(fr, in.Y)
	ra, rb := x.find(a), x.find(b)
	if (ra.isConst() || ra.op == OpNil) && (rb.isConst() || rb.op == OpNil) {
		a, b = ra, rb
	}
	isInt := isInteger(in.X.Type())
	switch in.Op {
	case token.EQL, token.NEQ:
		// comparing an interface with a concrete value converts the value
		if types.IsInterface(in.X.Type()) != types.IsInterface(in.Y.Type()) {
			if types.IsInterface(in.Y.Type()) {
				a, b = b, a
			}
		}
	}
	t := x.ts.Bin(in.Op, a, b, isInt)
	if isInt {
		switch in.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO, token.REM, token.SHL:
			p := x.ts.Poly(t)
			if c, ok := p.konst(); ok {
				return x.ts.Int(c)
			}
			if in.Op == token.ADD || in.Op == token.SUB || in.Op == token.MUL || in.Op == token.QUO {
				return x.ts.polyTerm(p)
			}
		}
	}
	return t
}

// IndexAddr is the address of element i of a slice or array pointer.
func (x *Exec) IndexAddr(s, i *Term) *Term {
	s = x.find(s)
	i = x.ts.polyTerm(x.substPoly(x.ts.Poly(i)))
	for s.op == OpSlice && (s.args[1].isConst() || s.args[0].op != OpAlloc) {
		i = x.ts.polyTerm(x.ts.Poly(i).add(x.ts.Poly(s.args[1]), 1))
		s = x.find(s.args[0])
	}
	if x.sameIdx != nil && !i.isConst() {
		p := x.ts.Poly(i)
		for _, j := range x.sameIdx[s] {
			if j == i || x.entailsEq(p.add(x.ts.Poly(j), -1)) {
				return x.ts.mk(OpIndexAddr, "", nil, s, j)
			}
		}
		setM(x, x.sameIdx, s, append(append([]*Term{}, x.sameIdx[s]...), i))
	}
	return x.ts.mk(OpIndexAddr, "", nil, s, i)
}

// loadElem reads element i of s.
func (x *Exec) loadElem(s, i *Term, t types.Type) *Term {
	a := x.IndexAddr(s, i)
	base, idx := a.args[0], a.args[1]
	if base.op == OpAppend && base.aux == "" {
		if c, ok := x.substPoly(x.ts.Poly(idx).add(x.ts.Poly(x.length(base.args[0])), -1)).konst(); ok {
			if c >= 0 && int(c)+1 < len(base.args) {
				return base.args[c+1]
			}
			if c < 0 {
				return x.loadElem(base.args[0], idx, t)
			}
		}
	}
	return x.load(a, t)
}
