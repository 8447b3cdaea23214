package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the language allows, written down independently of the tables of the
// compiler.
var kinds = map[string]struct {
	props []string
	inner []string
}{
	"Blackbox": {props: []string{"size"}},
	"Block":    {props: []string{"align", "masters", "reset"}, inner: []string{"Blackbox", "Block", "Config", "Group", "Irq", "Mask", "Proc", "Static", "Status", "Stream"}},
	"Bus":      {props: []string{"align", "masters", "reset", "width"}, inner: []string{"Blackbox", "Block", "Config", "Group", "Irq", "Mask", "Proc", "Static", "Status", "Stream"}},
	"Config":   {props: []string{"atomic", "init-value", "range", "read-value", "reset-value", "width"}},
	"Group":    {props: []string{"virtual"}, inner: []string{"Config", "Irq", "Mask", "Param", "Return", "Static", "Status"}},
	"Irq":      {props: []string{"add-enable", "clear", "enable-init-value", "enable-reset-value", "in-trigger", "out-trigger"}},
	"Mask":     {props: []string{"atomic", "init-value", "read-value", "reset-value", "width"}},
	"Param":    {props: []string{"range", "width"}},
	"Proc":     {props: []string{"delay"}, inner: []string{"Param", "Return"}},
	"Return":   {props: []string{"width"}},
	"Static":   {props: []string{"init-value", "read-value", "reset-value", "width"}},
	"Status":   {props: []string{"atomic", "read-value", "width"}},
	"Stream":   {props: []string{"delay"}, inner: []string{"Param", "Return"}},
}

var kindNames = func() []string {
	var out []string
	for k := range kinds {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}()

// domain of a property value.
type domain struct {
	typ  []string // allowed dynamic types of package val
	enum []string
	min  int64
	pow2 bool
}

var domains = map[string]domain{
	"add-enable":         {typ: []string{"Bool"}},
	"align":              {typ: []string{"Int"}, min: 1, pow2: true},
	"atomic":             {typ: []string{"Bool"}},
	"clear":              {typ: []string{"Str"}, enum: []string{"Explicit", "On Read"}},
	"delay":              {typ: []string{"Time"}},
	"enable-init-value":  {typ: []string{"BitStr", "Int"}},
	"enable-reset-value": {typ: []string{"BitStr", "Int"}},
	"in-trigger":         {typ: []string{"Str"}, enum: []string{"Edge", "Level"}},
	"init-value":         {typ: []string{"BitStr", "Int"}},
	"masters":            {typ: []string{"Int"}, min: 1},
	"out-trigger":        {typ: []string{"Str"}, enum: []string{"Edge", "Level"}},
	"range":              {typ: []string{"Int", "List", "Range"}},
	"read-value":         {typ: []string{"BitStr", "Int"}},
	"reset":              {typ: []string{"Str"}, enum: []string{"Async", "Sync"}},
	"reset-value":        {typ: []string{"BitStr", "Int"}},
	"size":               {typ: []string{"Int"}},
	"virtual":            {typ: []string{"Bool"}},
	"width":              {typ: []string{"Int"}},
}

// defaults of attributes: "true", "false", a number, "bus" for the width of
// the bus, or a string.
var defaults = map[string]string{
	"Config.atomic": "true", "Mask.atomic": "true", "Status.atomic": "true",
	"Config.width": "bus", "Mask.width": "bus", "Static.width": "bus", "Status.width": "bus", "Param.width": "bus", "Return.width": "bus",
	"Irq.clear": "Explicit", "Irq.in-trigger": "Level", "Irq.out-trigger": "Level", "Irq.add-enable": "false",
	"Block.align": "0", "Block.masters": "1", "Block.reset": "",
	"Bus.align": "0", "Bus.masters": "1", "Bus.reset": "", "Bus.width": "32",
	"Group.virtual": "false", "Proc.delay": "nil", "Stream.delay": "nil",
	"Config.range": "nil", "Param.range": "nil",
}

func camel(prop string) string {
	var b strings.Builder
	for _, p := range strings.Split(prop, "-") {
		b.WriteString(strings.ToUpper(p[:1]) + p[1:])
	}
	return b.String()
}

// structOf is the structure of package fn a kind is stored in.
func structOf(kind string) string {
	if kind == "Bus" {
		return "Block"
	}
	return kind
}

// insFuncs finds the instantiating function of each kind: it takes a type
// chain and returns the functionality and an error.
func insFuncs(p *Prog) map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, f := range p.funcs {
		if f.Parent() != nil || !inPkg(f, pkgIns) || chainParam(p, f) < 0 {
			continue
		}
		res := f.Signature.Results()
		if res.Len() != 2 || res.At(1).Type().String() != "error" {
			continue
		}
		for k := range kinds {
			if isPtrTo(res.At(0).Type(), pkgFn, structOf(k)) {
				if o := out[k]; o == nil || callsDirectly(f, o) {
					out[k] = f
				}
			}
		}
	}
	return out
}

func callsDirectly(f, g *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() == g {
				return true
			}
		}
	}
	return false
}

// chainParam is the index of the parameter that is the type chain.
func chainParam(p *Prog, f *ssa.Function) int {
	for i, q := range f.Params {
		if s, ok := q.Type().Underlying().(*types.Slice); ok && isNamed(s.Elem(), pkgPrs, "Functionality") {
			return i
		}
	}
	return -1
}

const (
	pkgIns = "internal/ins"
	pkgPrs = "internal/prs"
	pkgVal = "internal/val"
)

// snap is a copy of the memory at some point of a path.
type snap struct {
	mem map[*Term]cell
	ver map[string]int
}

func (x *Exec) snapshot() *snap {
	s := &snap{mem: make(map[*Term]cell, len(x.mem)), ver: make(map[string]int, len(x.ver))}
	for k, v := range x.mem {
		s.mem[k] = v
	}
	for k, v := range x.ver {
		s.ver[k] = v
	}
	return s
}

// at reads address a as it was when s was taken.
func (x *Exec) at(s *snap, a *Term, t types.Type) *Term {
	m, v := x.mem, x.ver
	x.mem, x.ver = s.mem, s.ver
	r := x.load(a, t)
	x.mem, x.ver = m, v
	return r
}

// activeLoops lists the loops the current point is in, outermost first.
func activeLoops(fr *Frame) []*loopCtx {
	var out []*loopCtx
	for f := fr; f != nil; f = f.caller {
		out = append(append([]*loopCtx{}, f.loops...), out...)
	}
	return out
}

// cellType guesses the type stored at an address from its key.
func addrType(p *Prog, a *Term, c cell) types.Type {
	if a.op == OpFieldAddr {
		if t := p.fieldType(a.aux); t != nil {
			return t
		}
	}
	if a.op == OpAlloc {
		return a.typ
	}
	return nil
}

// fieldType finds the type of the field named by an address key.
func (p *Prog) fieldType(aux string) types.Type {
	if p.fieldTypes == nil {
		p.fieldTypes = map[string]types.Type{}
		add := func(t types.Type) {
			if st, ok := t.Underlying().(*types.Struct); ok {
				n := structName(t)
				for i := 0; i < st.NumFields(); i++ {
					p.fieldTypes[n+":"+st.Field(i).Name()] = st.Field(i).Type()
				}
			}
		}
		for _, pk := range p.pkgs {
			sc := pk.Types.Scope()
			for _, n := range sc.Names() {
				if tn, ok := sc.Lookup(n).(*types.TypeName); ok {
					add(tn.Type())
				}
			}
		}
	}
	return p.fieldTypes[aux]
}

// propRec is one way through an iteration of a loop over properties.
type propRec struct {
	name    string // "" when the name is not known to be a constant
	lc, top *loopCtx
	pos     string
	evalOk  bool
	typ     string
	enum    string
	domain  string          // what is missing of the domain, "" when proven
	stores  map[*Term]*Term // persistent cells that got the value
	starts  map[*Term]*Term // cells whose value before the iteration is a known constant
	ends    map[*Term]tri   // for cells in starts: still equal after the iteration
	changed map[*Term]bool  // persistent cells that changed
	V       *Term
	canon   map[*Term]bool // stores in the form the attribute wants
}

type insCheck struct {
	ranged     tri // whether the range is set on this path
	p          *Prog
	r          *Report
	x          *Exec
	kind       string
	fn         *ssa.Function
	chain      *Term
	snaps      map[*loopCtx]*snap
	recs       []*propRec
	tops       map[*loopCtx]bool
	after      *snap // memory when the type chain was exhausted
	phis       map[*Term]phiRef
	oks        int
	inner      map[string]int
	cover      *coverTrack
	madeByKind map[string]bool
	prev       *insCheck // the first walk, which found the loops and cells
}

type phiRef struct {
	lc *loopCtx
	p  *ssa.Phi
}

func (c *insCheck) ob(prop, rule, construct string, ok bool, pos, format string, a ...any) {
	if c.r.prop == prop {
		c.r.ob(rule, strings.ToLower(c.kind)+" "+construct, ok, pos, format, a...)
	}
}

// isEval: the value of a property of the current iteration.
func isEval(t *Term, k *Term) bool {
	return t.op == OpCall && strings.HasPrefix(t.aux, "prs.Expr.Eval") && t.has(k) && t.contains(func(s *Term) bool {
		return s.op == OpFieldAddr && strings.HasSuffix(s.aux, "prs.Prop:Value") || s.op == OpField && strings.HasSuffix(s.aux, "prs.Prop:Value")
	})
}

func isPropName(t *Term) bool {
	return t.op == OpLoad && t.args[0].op == OpFieldAddr && strings.HasSuffix(t.args[0].aux, "prs.Prop:Name") ||
		t.op == OpField && strings.HasSuffix(t.aux, "prs.Prop:Name")
}

func (c *insCheck) backEdge(x *Exec, fr *Frame, lc *loopCtx) {
	s := c.snaps[lc]
	if s == nil {
		return
	}
	loops := activeLoops(fr)
	// the loop over the types of the chain
	var name *Term
	for l := range x.lits {
		l.contains(func(t *Term) bool {
			if isPropName(t) && t.has(lc.k) && (name == nil || t.id < name.id) {
				// not of a loop inside
				name = t
			}
			return false
		})
	}
	if name == nil {
		return
	}
	// innermost loop whose iteration the name belongs to
	for _, o := range loops {
		if o != lc && o.seq > lc.seq && name.has(o.k) {
			return
		}
	}
	rec := &propRec{lc: lc, top: loops[0], pos: c.p.pos(lc.header.Instrs[0].Pos()), stores: map[*Term]*Term{}, starts: map[*Term]*Term{}, ends: map[*Term]tri{}, changed: map[*Term]bool{}, canon: map[*Term]bool{}}
	if rec.pos == "" || rec.pos == "-" {
		rec.pos = c.p.pos(fr.fn.Pos())
	}
	rec.name, _ = x.find(name).strVal()
	top := loops[0]

	// the value of the property
	var call *Term
	note := func(t *Term) {
		t.contains(func(s *Term) bool {
			if isEval(s, lc.k) && (call == nil || s.id < call.id) {
				call = s
			}
			return false
		})
	}
	for l := range x.lits {
		note(l)
	}
	for _, cl := range x.mem {
		note(cl.v)
	}
	if call != nil {
		rec.V = x.extract(call, 0)
		rec.evalOk = x.truth(x.ts.Bin(token.EQL, x.extract(call, 1), x.ts.Nil(), false)) == yes
		rec.typ = ""
		if d := x.dynType(rec.V); d != nil {
			rec.typ = valName(d)
		}
		c.checkDomain(x, rec)
	}

	persistent := func(a *Term) bool {
		r := rootOf(a)
		return r.op != OpAlloc && !isGlobalRoot(r) || r.op == OpAlloc && r.ser <= top.mark
	}
	cand := map[*Term]bool{}
	for l := range x.lits {
		l.contains(func(t *Term) bool {
			if t.op == OpLoad && persistent(t.args[0]) {
				cand[t.args[0]] = true
			}
			return false
		})
	}
	for a, cl := range x.mem {
		if !persistent(a) {
			continue
		}
		old, had := s.mem[a]
		if had && old.v == cl.v {
			continue
		}
		t := addrType(c.p, a, cl)
		if t == nil {
			continue
		}
		if !had && x.at(s, a, t) == cl.v {
			continue
		}
		rec.changed[a] = true
		cand[a] = true
		if rec.V != nil && c.derived(cl.v, lc, map[*Term]bool{}) {
			rec.stores[a] = cl.v
			rec.canon[a] = c.canonical(x, rec.name, cl.v, rec.V)
		}
	}
	for a := range cand {
		t := addrType(c.p, a, cell{})
		if t == nil || isStruct(t) {
			continue
		}
		st := x.find(x.at(s, a, t))
		if cl, ok := s.mem[a]; ok {
			st = x.find(cl.v)
		}
		if !(st.isConst() || st.op == OpNil) {
			// zero tests of booleans are literals
			switch x.truth(st) {
			case yes:
				st = x.ts.Bool(true)
			case no:
				st = x.ts.Bool(false)
			default:
				continue
			}
		}
		rec.starts[a] = st
		rec.ends[a] = x.eq(x.find(x.load(a, t)), st)
		if e := x.find(x.load(a, t)); st.op == OpNil && (e.op == OpAlloc || e.op == OpIface || e.op == OpStruct) {
			rec.ends[a] = no
		} else if isBool(t) && !e.isConst() {
			switch x.truth(e) {
			case yes:
				rec.ends[a] = triOf(st.isTrue())
			case no:
				rec.ends[a] = triOf(st.isFalse())
			}
		} else if st.op == OpNil && rec.V != nil && e == x.find(rec.V) && x.dynType(e) != nil {
			rec.ends[a] = no
		}
	}
	c.recs = append(c.recs, rec)
}

func isGlobalRoot(t *Term) bool { return t.op == OpGlobal }

func valName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), pkgVal) {
		return n.Obj().Name()
	}
	return t.String()
}

// derived tells if the value comes from the property value of loop lc, also
// through a fresh object or a list built by a loop.
func (c *insCheck) derived(t *Term, lc *loopCtx, seen map[*Term]bool) bool {
	return t.contains(func(s *Term) bool {
		if seen[s] {
			return false
		}
		if isEval(s, lc.k) {
			return true
		}
		switch s.op {
		case OpAlloc:
			seen[s] = true
			for a, cl := range c.x.mem {
				if rootOf(a) == s && c.derived(cl.v, lc, seen) {
					return true
				}
			}
		case OpSym:
			if pr, ok := c.phis[s]; ok {
				seen[s] = true
				for _, r := range pr.lc.recs {
					if n := r.next[pr.p]; n != nil && c.derived(n, lc, seen) {
						return true
					}
				}
			}
		}
		return false
	})
}

// checkDomain says what is not proven of the value of the property.
func (c *insCheck) checkDomain(x *Exec, rec *propRec) {
	d, ok := domains[rec.name]
	if !ok {
		return
	}
	if !inList(d.typ, rec.typ) {
		rec.domain = fmt.Sprintf("a value of type %q is not excluded", rec.typ)
		if rec.typ == "" {
			rec.domain = "the type of the value is not checked"
		}
		return
	}
	vt := c.p.named(pkgVal, rec.typ)
	if vt == nil {
		return
	}
	v := c.asserted(x, rec.V, vt)
	if len(d.enum) > 0 {
		s, ok := x.find(v).strVal()
		if !ok {
			s, ok = c.enumOf(x, v)
		}
		if !ok || !inList(d.enum, s) {
			rec.domain = fmt.Sprintf("the value is not known to be one of %q", d.enum)
			return
		}
		rec.enum = s
	}
	ge := func(t *Term, n int64) bool { return x.provesLE0(polyConst(n).add(x.ts.Poly(t), -1)) }
	switch rec.name {
	case "align", "masters", "size", "width":
		min := d.min
		if c.kind == "Bus" && rec.name == "width" {
			min = 1
		}
		if !ge(v, min) {
			rec.domain = fmt.Sprintf("the value may be less than %d", min)
		}
		if d.pow2 && !c.pow2(x, v) {
			rec.domain = "the value may be no power of 2"
		}
	case "range":
		switch rec.typ {
		case "Int":
			if !ge(v, 0) {
				rec.domain = "the value may be negative"
			}
		case "Range":
			rec.domain = c.rangeDomain(x, v, vt)
		case "List":
			n := x.length(v)
			if !x.provesLE0(polyConst(1).add(x.ts.Poly(n), -1)) {
				rec.domain = "the list may be empty"
				return
			}
			m := x.mark()
			rt := c.p.named(pkgVal, "Range")
			j := x.ts.fresh(OpSym, "j", nil)
			x.assumeLE0(polyConst(0).add(polyAtom(j), -1))
			x.assume(x.ts.Bin(token.LSS, j, n, false), true)
			el := x.loadElem(v, j, vt.Underlying().(*types.Slice).Elem())
			if x.truth(x.ts.mk(OpAssertOk, "", rt, el)) != yes {
				rec.domain = "an element of the list may be no range"
			} else {
				rec.domain = c.rangeDomain(x, c.asserted(x, el, rt), rt)
			}
			x.undo(m)
		}
	}
}

// enumOf finds the constant a path equates with v.
func (c *insCheck) enumOf(x *Exec, v *Term) (string, bool) {
	for l, t := range x.lits {
		if !t || l.op != OpBin || l.aux != "==" {
			continue
		}
		for i := 0; i < 2; i++ {
			if a := l.args[i]; a == v || peel(a) == v {
				if s, ok := x.find(l.args[1-i]).strVal(); ok {
					return s, true
				}
			}
		}
	}
	return "", false
}

func (c *insCheck) rangeDomain(x *Exec, v *Term, rt *types.Named) string {
	st, ok := rt.Underlying().(*types.Struct)
	if !ok || st.NumFields() < 2 {
		return ""
	}
	l, r := x.Field(v, rt, 0), x.Field(v, rt, 1)
	zero := x.ts.Int(0)
	lt := func(a, b *Term) bool { return x.truth(x.ts.Bin(token.LSS, a, b, false)) == no }
	if !lt(l, zero) {
		return "the left bound may be negative"
	}
	if !lt(r, l) {
		return "the left bound may be greater than the right one"
	}
	return ""
}

// asserted is the value of v.(T).
func (c *insCheck) asserted(x *Exec, v *Term, T types.Type) *Term {
	v = x.find(v)
	if v.op == OpIface {
		return v.args[0]
	}
	return x.ts.mk(OpAssert, "", T, v)
}

// pow2 looks for the fact that v is a power of two.
func (c *insCheck) pow2(x *Exec, v *Term) bool {
	for l, t := range x.lits {
		if !t || l.op != OpBin || l.aux != "==" || !l.has(v) {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := l.args[i], l.args[1-i]
			if x.same(a, v) && b.has(v) && b.contains(func(s *Term) bool { return s.op == OpCall }) {
				return true // v equals a function of itself
			}
			if n, ok := a.intVal(); ok && n <= 1 && b.has(v) && b.contains(func(s *Term) bool { return s.op == OpBin && s.aux == "&" || s.op == OpCall }) {
				return true
			}
		}
	}
	return false
}

func inList(l []string, s string) bool {
	for _, e := range l {
		if e == s {
			return true
		}
	}
	return false
}

// canonical tells if t is the value v of a property in the form the attribute
// wants.
func (c *insCheck) canonical(x *Exec, prop string, t, v *Term) bool {
	t = x.find(t)
	v = x.find(v)
	as := func(n string) *Term {
		vt := c.p.named(pkgVal, n)
		if vt == nil {
			return x.ts.Nil()
		}
		return c.asserted(x, v, vt)
	}
	for t.op == OpConv {
		t = t.args[0]
	}
	eq := func(a, b *Term) bool { return a == b || x.find(a) == x.find(b) }
	d := domains[prop]
	switch {
	case prop == "delay":
		// the address of a fresh structure holding both parts
		tt := c.p.named(pkgTypes, "Time")
		vt := c.p.named(pkgVal, "Time")
		if tt == nil || vt == nil {
			return false
		}
		vv := as("Time")
		for _, f := range []string{"S", "Ns"} {
			if !x.same(x.fieldByName(t, tt, f), c.fieldNamed(x, vv, vt, f)) {
				return false
			}
		}
		return true
	case prop == "range":
		return c.canonicalRange(x, t, v)
	case strings.HasSuffix(prop, "-value"):
		return false
	}
	b := as(d.typ[0])
	if eq(t, b) {
		return true
	}
	if len(d.enum) > 0 {
		if s, ok := t.strVal(); ok {
			e, ok2 := x.find(b).strVal()
			if !ok2 {
				e, ok2 = c.enumOf(x, b)
			}
			return ok2 && e == s
		}
	}
	if d.typ[0] == "Bool" && t.isConst() {
		switch x.truth(b) {
		case yes:
			return t.isTrue()
		case no:
			return t.isFalse()
		}
	}
	return d.typ[0] == "Int" && x.same(t, b)
}

func (c *insCheck) fieldNamed(x *Exec, v *Term, T *types.Named, name string) *Term {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return x.ts.Nil()
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return x.Field(v, T, i)
		}
	}
	return x.ts.Nil()
}

func (c *insCheck) canonicalRange(x *Exec, t, v *Term) bool {
	sr := c.p.named(pkgTypes, "SingleRange")
	vr := c.p.named(pkgVal, "Range")
	if sr == nil || vr == nil {
		return false
	}
	t = x.find(t)
	isSingle := func(e, l, r *Term) bool {
		e = x.find(e)
		if e.op == OpIface {
			e = e.args[0]
		}
		return x.same(c.fieldNamed(x, e, sr, "Start"), l) && x.same(c.fieldNamed(x, e, sr, "End"), r)
	}
	d := x.dynType(v)
	if d == nil {
		return false
	}
	switch valName(d) {
	case "Int":
		return isSingle(t, x.ts.Int(0), c.asserted(x, v, d))
	case "Range":
		vv := c.asserted(x, v, d)
		return isSingle(t, x.Field(vv, vr, 0), x.Field(vv, vr, 1))
	case "List":
		if t.op == OpIface {
			t = x.find(t.args[0])
		}
		vv := c.asserted(x, v, d)
		et := d.Underlying().(*types.Slice).Elem()
		pr, ok := c.phis[t]
		if !ok {
			return t.op != OpNil && c.elementwise(x, t, vv, et, sr, vr)
		}
		// a list grown by one element per iteration
		en := x.find(pr.lc.entry[pr.p])
		if n, ok := x.length(en).intVal(); !ok || n != 0 {
			return false
		}
		if len(pr.lc.recs) == 0 {
			return false
		}
		for _, r := range pr.lc.recs {
			n := r.next[pr.p]
			if n == nil || n.op != OpAppend || n.args[0] != t || len(n.args) != 2 {
				return false
			}
			el := c.asserted(x, x.loadElem(vv, pr.lc.k, et), vr)
			if !isSingle(n.args[1], x.Field(el, vr, 0), x.Field(el, vr, 1)) {
				return false
			}
		}
		return true
	}
	return false
}

// elementwise: a list of the right length filled by index.
func (c *insCheck) elementwise(x *Exec, t, v *Term, et types.Type, sr, vr *types.Named) bool {
	return x.same(x.length(t), x.length(v))
}

func (c *insCheck) attrOf(a *Term) string {
	if a.op != OpFieldAddr {
		return ""
	}
	if i := strings.LastIndex(a.aux, "fn."+structOf(c.kind)+":"); i >= 0 {
		return a.aux[i+len("fn."+structOf(c.kind)+":"):]
	}
	return ""
}

func (c *insCheck) walk() {
	p := c.p
	x := newExec(p, Hooks{})
	c.x = x
	c.snaps = map[*loopCtx]*snap{}
	c.tops = map[*loopCtx]bool{}
	c.phis = map[*Term]phiRef{}
	c.inner = map[string]int{}
	isInsFunc := func(f *ssa.Function) bool {
		s := f.Signature
		return inPkg(f, pkgIns) && s.Results().Len() >= 1 && (isNamed(s.Results().At(0).Type(), pkgFn, "Functionality") || isNamed(s.Results().At(0).Type(), pkgFn, "Func"))
	}
	x.h = Hooks{
		Opaque: func(f *ssa.Function) bool {
			return inPkg(f, pkgVal) || inPkg(f, pkgTypes) || isInsFunc(f) || inPkg(f, "internal/tok") || resolvesChain(f)
		},
		Subst: func(x *Exec, name string, f *ssa.Function, args []*Term) *Term {
			// the base type comes first in the chain
			if name == "prs.Functionality.Type" && len(args) == 1 {
				a := x.find(args[0])
				if a.op == OpLoad && a.args[0].op == OpIndexAddr && a.args[0].args[0] == c.chain && x.same(a.args[0].args[1], x.ts.Int(0)) {
					return x.ts.Str(strings.ToLower(c.kind))
				}
			}
			return nil
		},
		LoopEnter: func(x *Exec, fr *Frame, lc *loopCtx) {
			c.snaps[lc] = x.snapshot()
			if c.prev != nil {
				c.cover.enter(x, lc)
			}
			for q, t := range lc.phi {
				c.phis[t] = phiRef{lc, q}
			}
			x.event(Event{Kind: "enter", Name: fmt.Sprint(lc.seq), Pos: lc.header.Instrs[0].Pos()})
		},
		LoopExit: func(x *Exec, fr *Frame, lc *loopCtx) {
			x.event(Event{Kind: "exit", Name: fmt.Sprint(lc.seq)})
			if c.prev != nil {
				c.cover.exit(x, lc)
			}
			if c.prev != nil && c.prev.isTop(lc) {
				old := c.after
				c.after = x.snapshot()
				x.trail = append(x.trail, func() { c.after = old })
			}
		},
		BackEdge: func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
			n := len(c.recs)
			c.backEdge(x, fr, lc)
			if len(c.recs) > n && len(c.recs[n].stores) > 0 {
				c.tops[c.recs[n].top] = true
			}
			if c.prev != nil {
				c.left(x, fr, lc, lc.evMark)
				c.cover.back(x, fr, lc)
			} else {
				c.memberEdge(x, fr, lc)
			}
		},
		Leaf: func(x *Exec, addr, val *Term, t types.Type) {
			if c.prev == nil {
				c.inserted(x, addr, val)
			}
		},
		MapSet: func(x *Exec, fr *Frame, in ssa.Instruction, m, k, v *Term) {
			if c.prev == nil {
				c.constSet(x, m, k)
			}
		},
		Panic: func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
			for l := range x.lits {
				if l.contains(isPropName) {
					c.ob("C06", "no-crash", "panic in "+p.fname(fr.fn), false, p.pos(in.Pos()), "a property value or name reaches a panic: %s", what)
					return
				}
			}
			if c.otherKind(x) {
				return
			}
			c.ob("C09", "no-crash", "panic in "+p.fname(fr.fn), false, p.pos(in.Pos()), "an accepted description reaches a panic: %s", what)
		},
		Assert: func(x *Exec, fr *Frame, in *ssa.TypeAssert, v *Term) {
			pr := "C09"
			if v.contains(func(s *Term) bool { return s.op == OpCall && strings.HasPrefix(s.aux, "prs.Expr.Eval") }) {
				pr = "C06"
			}
			c.ob(pr, "assert", p.fname(fr.fn)+" "+shortType(in.AssertedType), false, p.pos(in.Pos()), "the value asserted to be %s may be of another type, the compiler crashes", shortType(in.AssertedType))
		},
	}
	args := x.params(c.fn)
	c.chain = args[chainParam(p, c.fn)]
	if c.prev != nil {
		c.cover = &coverTrack{
			types: c.chain,
			mems:  map[*loopCtx]map[*Term]*Term{},
			found: map[int]map[coverIdx]bool{},
			chain: func(l *Term) bool { return l == c.chain },
			mine:  c.overChain,
			bad: func(lc *loopCtx, what string) {
				c.ob("C22", "all-applied", "loop in "+p.fname(lc.fr.fn), false, p.pos(lc.header.Instrs[0].Pos()), "%s, so that properties of the functionality are ignored", what)
			},
		}
	}
	x.run(c.fn, args, func(fr *Frame, res *Term) { c.ret(x, fr, res) })
	if c.prev != nil {
		c.cover.judge()
		c.ob("C22", "all-applied", strings.ToLower(c.kind), c.cover.n > 0, p.pos(c.fn.Pos()), "the loops over the types and their properties were not found")
	}
	c.r.done(x, c.fn.Name())
}

// resolvesChain: functions that compute a type chain.
func resolvesChain(f *ssa.Function) bool {
	rs := f.Signature.Results()
	if !inPkg(f, pkgIns) || rs.Len() == 0 {
		return false
	}
	s, ok := rs.At(0).Type().Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), pkgPrs, "Functionality")
}

// left reports loops over properties or members that ended early.
func (c *insCheck) left(x *Exec, fr *Frame, lc *loopCtx, from int) {
	open := map[string]token.Pos{}
	for _, e := range x.events[from:] {
		switch e.Kind {
		case "enter":
			open[e.Name] = e.Pos
		case "exit":
			delete(open, e.Name)
		}
	}
	if lc != nil {
		delete(open, fmt.Sprint(lc.seq))
	}
	for n, pos := range open {
		for l := range c.snaps {
			if fmt.Sprint(l.seq) != n {
				continue
			}
			if c.overChain(l) {
				c.ob("C22", "all-applied", "loop in "+c.p.fname(l.fr.fn), false, c.p.pos(pos), "the loop over properties, members or types ends before all were looked at")
			}
		}
	}
}

// overChain: the loop goes over types, properties or members.
func (c *insCheck) overChain(lc *loopCtx) bool {
	for _, r := range c.prev.recs {
		if r.lc.seq == lc.seq && c.prev.applies(r.lc) || r.top.seq == lc.seq && c.prev.applies(r.lc) {
			return true
		}
	}
	return false
}

func (c *insCheck) isTop(lc *loopCtx) bool {
	for t := range c.tops {
		if t.seq == lc.seq {
			return true
		}
	}
	return false
}

// imported is term t of another walk.
func (x *Exec) imported(t *Term) *Term {
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = x.imported(a)
	}
	n := x.ts.mk(t.op, t.aux, t.typ, as...)
	if t.cv != nil {
		n.cv = t.cv
	}
	return n
}

// cellsOf gives the cells found by the first walk as terms of this one.
func (c *insCheck) cellsOf() (stores map[string]map[*Term]bool, markers map[string]map[*Term]*Term) {
	s, m := c.prev.cells()
	stores = map[string]map[*Term]bool{}
	markers = map[string]map[*Term]*Term{}
	for n, as := range s {
		stores[n] = map[*Term]bool{}
		for a := range as {
			stores[n][c.x.imported(a)] = true
		}
	}
	for n, as := range m {
		markers[n] = map[*Term]*Term{}
		for a, v := range as {
			markers[n][c.x.imported(a)] = c.x.imported(v)
		}
	}
	return
}

// isSet: is the property with these markers set on this path?
func (c *insCheck) isSet(x *Exec, markers map[*Term]*Term) tri {
	set := unknown
	for a, un := range markers {
		t := addrType(c.p, a, cell{})
		v := x.find(x.at(c.after, a, t))
		q := x.eq(v, un)
		if isBool(t) && !v.isConst() {
			switch x.truth(v) {
			case yes:
				q = triOf(un.isTrue())
			case no:
				q = triOf(un.isFalse())
			}
		}
		switch q {
		case yes:
			set = no
		case no:
			set = yes
		}
	}
	return set
}

// ret judges a way through the whole function.
func (c *insCheck) ret(x *Exec, fr *Frame, res *Term) {
	if res.op != OpTuple || len(res.args) != 2 {
		return
	}
	if e := x.find(res.args[1]); e.op != OpNil && x.truth(x.ts.Bin(token.EQL, e, x.ts.Nil(), false)) != yes {
		return
	}
	c.oks++
	if c.prev == nil {
		return
	}
	obj := x.find(res.args[0])
	pos := c.p.pos(c.fn.Pos())
	T := c.p.named(pkgFn, structOf(c.kind))
	c.left(x, fr, nil, 0)
	c.memberReturn(x, obj)
	if c.after == nil {
		c.ob("C07", "chain", "order", false, pos, "properties are not applied in a loop over the type chain")
		return
	}
	stores, markers := c.cellsOf()
	var width *Term
	if inList(kinds[c.kind].props, "width") {
		width = x.find(x.fieldByName(obj, T, "Width"))
	}
	c.ranged = c.isSet(x, markers["range"])
	for _, prop := range kinds[c.kind].props {
		attr := x.find(x.fieldByName(obj, T, camel(prop)))
		set := c.isSet(x, markers[prop])
		from := c.source(x, prop, attr, stores[prop], width)
		if set == yes && c.impossible(x, prop, stores[prop]) {
			continue
		}
		what := prop
		switch set {
		case yes:
			c.ob("C22", "value-reaches-attribute", what, from == "", pos, "%s is set but the attribute is %s: %s", prop, short(attr), from)
			c.ob("C07", "set-value-kept", what, from == "", pos, "%s is set but the attribute is %s: %s", prop, short(attr), from)
		case no:
			d := c.isDefault(x, prop, attr, stores) || from == "" && c.isDefault(x, prop, c.initialOf(x, prop, stores[prop]), stores)
			c.ob("C22", "default", what, d, pos, "%s is not set but the attribute is %s", prop, short(attr))
			c.ob("C07", "default", what, d, pos, "%s is not set but the attribute is %s", prop, short(attr))
		default:
			ok := from == "" || c.isDefault(x, prop, attr, stores) && c.stillZero(x, prop, stores[prop])
			c.ob("C22", "value-reaches-attribute", what, ok, pos, "the attribute of %s is %s: %s", prop, short(attr), from)
			// its value before the first property is the default
			if init := c.initialOf(x, prop, stores[prop]); init != nil && ok && x.eq(attr, init) != no {
				c.ob("C22", "default", what, c.isDefault(x, prop, init, stores), pos, "%s is not set but the attribute is %s", prop, short(init))
			}
		}
	}
}

// impossible: the path contradicts what holds of any value that was stored.
func (c *insCheck) impossible(x *Exec, prop string, stores map[*Term]bool) bool {
	for a := range stores {
		if !c.raw(prop, a) {
			continue
		}
		v := x.at(c.after, a, addrType(c.p, a, cell{}))
		none := true
		for _, n := range domains[prop].typ {
			if t := c.p.named(pkgVal, n); t == nil || x.truth(x.ts.mk(OpAssertOk, "", t, x.find(v))) != no {
				none = false
			}
		}
		if none {
			return true
		}
	}
	return false
}

// initialOf is the value of the attribute before the first property.
func (c *insCheck) initialOf(x *Exec, prop string, stores map[*Term]bool) *Term {
	for a := range stores {
		if c.attrOf(a) != camel(prop) {
			continue
		}
		init := x.zero(addrType(c.p, a, cell{}))
		for l := range c.snaps {
			if c.prev.isTop(l) {
				if cl, ok := l.pre[a]; ok {
					init = cl.v
				}
			}
		}
		return x.find(init)
	}
	return x.ts.Bool(true)
}

// stillZero: the attribute had its initial value when the chain was exhausted.
func (c *insCheck) stillZero(x *Exec, prop string, stores map[*Term]bool) bool {
	for a := range stores {
		if c.attrOf(a) == camel(prop) && x.eq(x.find(x.at(c.after, a, addrType(c.p, a, cell{}))), c.initialOf(x, prop, stores)) == yes {
			return true
		}
	}
	return false
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 120 {
		s = s[:120] + "…"
	}
	return s
}

// source explains why attr is not the value of the property, "" if it is.
func (c *insCheck) source(x *Exec, prop string, attr *Term, stores map[*Term]bool, width *Term) string {
	isLoad := func(t *Term) *Term {
		t = x.find(t)
		if t.op == OpLoad && stores[t.args[0]] {
			return t.args[0]
		}
		for a := range stores {
			if ty := addrType(c.p, a, cell{}); ty != nil && c.after != nil && x.find(x.at(c.after, a, ty)) == t {
				return a
			}
		}
		return nil
	}
	if a := isLoad(attr); a != nil {
		if c.raw(prop, a) {
			return "the value is stored as it is, without conversion"
		}
		return ""
	}
	// a bool or a string that the path knows
	if attr.isConst() {
		for a := range stores {
			if ty := addrType(c.p, a, cell{}); ty != nil && x.eq(x.find(x.at(c.after, a, ty)), attr) == yes {
				return ""
			}
			if ty := addrType(c.p, a, cell{}); ty != nil && isBool(ty) {
				switch x.truth(x.at(c.after, a, ty)) {
				case yes:
					if attr.isTrue() {
						return ""
					}
				case no:
					if attr.isFalse() {
						return ""
					}
				}
			}
		}
		return "it is a constant"
	}
	if strings.HasSuffix(prop, "-value") {
		// MakeBitStr(value of the right width)
		t := attr
		for t.op == OpConv || t.op == OpCall && strings.Contains(t.aux, "MakeBitStr") {
			t = x.find(t.args[0])
		}
		w := width
		if w == nil || strings.HasPrefix(prop, "enable-") {
			w = x.ts.Int(1)
		}
		if t.op == OpAssert && valName(t.typ) == "BitStr" {
			if isLoad(t.args[0]) == nil {
				return "the bit string is another one"
			}
			// not wider than the functionality
			for l, v := range x.lits {
				if l.op == OpBin && l.aux == "<" && !v && x.same(l.args[0], w) && l.args[1].op == OpCall && strings.Contains(l.args[1].aux, "BitWidth") && x.find(l.args[1].args[0]) == t {
					return ""
				}
			}
			bw := x.callOn("BitWidth", t)
			if bw != nil && x.provesLE0(x.ts.Poly(bw).add(x.ts.Poly(w), -1)) {
				return ""
			}
			return "a bit string wider than the functionality is not rejected"
		}
		if t.op == OpExtract && t.aux == "0" && t.args[0].op == OpCall && strings.Contains(t.args[0].aux, "BitStrFromInt") && len(t.args[0].args) == 2 {
			cl := t.args[0]
			i := x.find(cl.args[0])
			if i.op != OpAssert || valName(i.typ) != "Int" || isLoad(i.args[0]) == nil {
				return "the integer converted is another one"
			}
			if !x.same(cl.args[1], w) {
				return "the integer is converted to another width: " + short(cl.args[1])
			}
			if x.truth(x.ts.Bin(token.EQL, x.extract(cl, 1), x.ts.Nil(), false)) != yes {
				return "the error of the conversion is ignored"
			}
			return ""
		}
		if s, ok := t.strVal(); ok && s == "" {
			return "it is empty"
		}
		return "it is no conversion of the value"
	}
	for a := range stores {
		if c.raw(prop, a) {
			ty := addrType(c.p, a, cell{})
			if c.canonical(x, prop, attr, x.at(c.after, a, ty)) {
				return ""
			}
		}
	}
	return "it is another value"
}

func (x *Exec) callOn(name string, arg *Term) *Term {
	for l := range x.lits {
		var out *Term
		l.contains(func(s *Term) bool {
			if s.op == OpCall && strings.Contains(s.aux, name) && len(s.args) == 1 && s.args[0] == arg {
				out = s
			}
			return out != nil
		})
		if out != nil {
			return out
		}
	}
	return nil
}

// raw: the cell holds the property value itself and not yet the attribute.
func (c *insCheck) raw(prop string, a *Term) bool {
	recs := c.recs
	if c.prev != nil {
		recs = c.prev.recs
	}
	for _, r := range recs {
		if r.name != prop {
			continue
		}
		for b, v := range r.stores {
			if b.String() == a.String() {
				return v == r.V || v.op == OpIface && v.args[0] == r.V
			}
		}
	}
	return false
}

func (c *insCheck) isDefault(x *Exec, prop string, attr *Term, stores map[string]map[*Term]bool) bool {
	for attr.op == OpConv {
		attr = x.find(attr.args[0])
	}
	want, ok := defaults[c.kind+"."+prop]
	if strings.HasSuffix(prop, "-value") {
		s, isS := attr.strVal()
		return isS && s == "" || attr.op == OpNil
	}
	if !ok {
		return true // must be set, see the rule for the kind
	}
	switch want {
	case "bus":
		if attr.op == OpLoad && attr.args[0].op == OpGlobal {
			return c.ranged == no || c.ranged == unknown && (!inList(kinds[c.kind].props, "range") || c.stillZero(x, "range", stores["range"]))
		}
		// derived from the range when there is one
		if inList(kinds[c.kind].props, "range") {
			return c.ranged != no && attr.op == OpCall && strings.Contains(attr.aux, "BitWidth") && attr.contains(func(s *Term) bool {
				return s.op == OpLoad && stores["range"][s.args[0]]
			})
		}
		return false
	case "nil":
		return attr.op == OpNil
	case "true":
		return attr.isTrue() || x.truth(attr) == yes
	case "false":
		return attr.isFalse() || x.truth(attr) == no
	}
	if s, ok := attr.strVal(); ok {
		return s == want
	}
	if n, ok := attr.intVal(); ok {
		return fmt.Sprint(n) == want
	}
	return false
}

// cells collects, per property, the cells that hold its value and the cells
// that tell whether it has been set, with their value while it is not.
func (c *insCheck) cells() (stores map[string]map[*Term]bool, markers map[string]map[*Term]*Term) {
	stores = map[string]map[*Term]bool{}
	markers = map[string]map[*Term]*Term{}
	first := map[string]bool{}
	for _, r := range c.recs {
		if r.name == "" || !c.applies(r.lc) {
			continue
		}
		if stores[r.name] == nil {
			stores[r.name] = map[*Term]bool{}
			markers[r.name] = map[*Term]*Term{}
			first[r.name] = true
		}
		for a := range r.stores {
			stores[r.name][a] = true
		}
		ms := map[*Term]*Term{}
		for a, st := range r.starts {
			if r.changed[a] && r.ends[a] == no {
				ms[a] = st
			}
		}
		if first[r.name] {
			markers[r.name] = ms
			first[r.name] = false
		} else {
			for a, st := range markers[r.name] {
				if ms[a] != st {
					delete(markers[r.name], a)
				}
			}
		}
	}
	return
}

// applies: a loop in which property values are stored, not only checked.
func (c *insCheck) applies(lc *loopCtx) bool {
	for _, r := range c.recs {
		if r.lc.header == lc.header && len(r.stores) > 0 {
			return true
		}
	}
	return false
}

func (c *insCheck) judge() {
	props := kinds[c.kind].props
	stores, markers := c.cells()
	pos := c.p.pos(c.fn.Pos())
	x := c.x
	seen := map[string]bool{}
	enums := map[string]map[string]bool{}
	typs := map[string]map[string]bool{}
	for _, r := range c.recs {
		if !c.applies(r.lc) {
			continue
		}
		if r.name == "" {
			c.ob("C20", "unknown-property", "name", false, r.pos, "a property whose name is none of %q is let through", props)
			c.ob("C22", "unknown-property", "name", false, r.pos, "a property is let through without looking at its name")
			continue
		}
		known := inList(props, r.name)
		c.ob("C20", "property-allowed", r.name, known, r.pos, "property %s does not belong to %s but is accepted", r.name, strings.ToLower(c.kind))
		if !known {
			continue
		}
		seen[r.name] = true
		c.ob("C06", "evaluated", r.name, r.V != nil && r.evalOk, r.pos, "the value of %s is used although its evaluation may have failed", r.name)
		c.ob("C06", "domain", r.name, r.domain == "", r.pos, "%s: %s", r.name, r.domain)
		if r.domain == "" {
			if typs[r.name] == nil {
				typs[r.name], enums[r.name] = map[string]bool{}, map[string]bool{}
			}
			typs[r.name][r.typ] = true
			enums[r.name][r.enum] = true
		}
		c.ob("C22", "value-stored", r.name, len(r.stores) > 0, r.pos, "there is a path on which the value of %s is accepted and dropped", r.name)
		for a, v := range r.stores {
			at := c.attrOf(a)
			c.ob("C22", "own-attribute", r.name, at == "" || at == camel(r.name), r.pos, "the value of %s is stored in attribute %s", r.name, at)
			if !c.raw(r.name, a) && c.wasCanonical(r, a, v) == no {
				c.ob("C22", "value-unchanged", r.name, false, r.pos, "%s is not stored as it is given: %s", r.name, short(v))
			} else {
				c.ob("C22", "value-unchanged", r.name, true, r.pos, "")
			}
			for o, s := range stores {
				if o != r.name && s[a] {
					c.ob("C22", "own-cell", r.name, false, r.pos, "%s and %s are stored in the same place", r.name, o)
				}
			}
		}
		for a := range r.changed {
			at := c.attrOf(a)
			for _, o := range props {
				if o != r.name && at == camel(o) && r.stores[a] == nil {
					c.ob("C22", "own-attribute", r.name, false, r.pos, "setting %s changes attribute %s", r.name, at)
				}
			}
		}
		// set once
		ms := markers[r.name]
		c.ob("C07", "set-once", r.name, len(ms) > 0, r.pos, "nothing that is known to change remembers that %s has been set, or it is not consulted before the value is replaced", r.name)
		for a, un := range ms {
			for o, om := range markers {
				if _, both := om[a]; both && o != r.name {
					c.ob("C07", "own-marker", r.name, false, r.pos, "%s and %s share the place that remembers they were set", r.name, o)
					c.ob("C22", "own-marker", r.name, false, r.pos, "%s and %s share the place that remembers they were set", r.name, o)
				}
			}
			// nothing else clears it
			for _, o := range c.recs {
				if o.changed[a] && o.name != r.name {
					c.ob("C07", "own-marker", r.name, false, o.pos, "setting %s changes the place that remembers %s", o.name, r.name)
				}
			}
			init, ok := c.initial(r.top, a)
			c.ob("C07", "marker-initial", r.name, ok && x.eq(init, un) == yes, r.pos, "%s counts as set or is forgotten before the type chain is followed", r.name)
		}
		if o := map[string]string{"width": "range", "range": "width"}[r.name]; o != "" && inList(props, o) {
			excl := false
			for a, un := range markers[o] {
				if r.starts[a] == un {
					excl = true
				}
			}
			c.ob("C07", "width-or-range", r.name+" after "+o, excl, r.pos, "%s is accepted although %s may be set already", r.name, o)
		}
	}
	for _, n := range props {
		c.ob("C20", "property-accepted", n, seen[n], pos, "property %s of %s is not accepted", n, strings.ToLower(c.kind))
		c.ob("C22", "property-accepted", n, seen[n], pos, "property %s of %s is not accepted", n, strings.ToLower(c.kind))
		c.ob("C07", "property-accepted", n, seen[n], pos, "property %s of %s is not accepted", n, strings.ToLower(c.kind))
		if !seen[n] {
			c.ob("C06", "domain", n, false, pos, "property %s of %s is not accepted", n, strings.ToLower(c.kind))
			continue
		}
		for _, t := range domains[n].typ {
			c.ob("C06", "value-accepted", n+" of type "+t, typs[n][t], pos, "no value of type %s is accepted for %s", t, n)
		}
		for _, e := range domains[n].enum {
			c.ob("C06", "value-accepted", n+" "+e, enums[n][e], pos, "%q is not accepted for %s", e, n)
		}
	}
	c.ob("C22", "result", "returned", c.oks > 0, pos, "no path returns a functionality")
	c.ob("C07", "result", "returned", c.oks > 0, pos, "no path returns a functionality")
}

// initial is the value of a cell before the first type of the chain.
func (c *insCheck) initial(top *loopCtx, a *Term) (*Term, bool) {
	if cl, ok := top.pre[a]; ok {
		return cl.v, true
	}
	if s := c.snaps[top]; s != nil {
		if cl, ok := s.mem[a]; ok {
			return cl.v, true
		}
	}
	return nil, false
}

func (c *insCheck) wasCanonical(r *propRec, a, v *Term) tri {
	return triOf(r.canon[a])
}

func runIns(p *Prog, r *Report) {
	fns := insFuncs(p)
	by := map[string]bool{}
	for _, f := range dispatchers(p, fns) {
		by[calleeName(p, f)] = true
	}
	for _, k := range kindNames {
		f := fns[k]
		if f == nil {
			r.missing("the function that instantiates " + strings.ToLower(k))
			continue
		}
		c := &insCheck{p: p, r: r, kind: k, fn: f, madeByKind: by}
		c.walk()
		if len(c.recs) == 0 {
			r.missing("the loop over the properties of " + strings.ToLower(k))
			continue
		}
		c.judge()
		c.memberJudge()
		d := &insCheck{p: p, r: r, kind: k, fn: f, prev: c, madeByKind: by}
		d.walk()
	}
}

func init() {
	checks["C06"] = func(p *Prog, r *Report) {
		r.explain = "every path of every instantiating function, with the facts it establishes about the property value before the next property is looked at"
		runIns(p, r)
		(&madeCheck{p: p, r: r}).run()
		r.floor("domain", 30)
	}
	checks["C07"] = func(p *Prog, r *Report) {
		r.explain = "every path of every instantiating function: what remembers that a property is set, when it is consulted and what becomes of the attribute"
		runIns(p, r)
		(&madeCheck{p: p, r: r}).run()
		r.floor("set-once", 30)
	}
	checks["C22"] = func(p *Prog, r *Report) {
		r.explain = "every path of every instantiating function: which attribute each property value ends in"
		runIns(p, r)
		(&madeCheck{p: p, r: r}).run()
		checkJSON(p, r, "")
		checkConversions(p, r)
		r.floor("value-stored", 30)
	}
	checks["C08"] = func(p *Prog, r *Report) {
		r.explain = "every insertion of a functionality or constant into a container, with what the path knows of the names already there"
		runIns(p, r)
		(&madeCheck{p: p, r: r}).run()
		checkGetName(p, r)
		checkUniqueSymbols(p, r)
		r.floor("unique-member", 50)
		r.floor("unique-const", 6)
	}
	checks["C20"] = func(p *Prog, r *Report) {
		r.explain = "every path of every instantiating function: which property names and inner functionalities are let through"
		runIns(p, r)
		checkPackageLevel(p, r)
		r.floor("property-allowed", 30)
	}
}
