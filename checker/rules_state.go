package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C21: compilations do not influence each other.
//
// Whatever outlives a compilation is in package level variables. Every one that
// may be changed while a description is compiled, itself or what it refers to,
// must be set anew by the same compilation before it is read, on every path, or
// hold marks that are all taken away again.

// place is a package level variable or a field of one.
type statePlace struct {
	g    *ssa.Global
	path string
}

// statePlaceOf finds the variable, or field of it, at an address.
func statePlaceOf(a ssa.Value) (statePlace, bool) {
	switch a := a.(type) {
	case *ssa.Global:
		return statePlace{g: a}, true
	case *ssa.FieldAddr:
		pl, ok := statePlaceOf(a.X)
		if !ok {
			return pl, false
		}
		st := deref(a.X.Type()).Underlying().(*types.Struct)
		pl.path += "." + st.Field(a.Field).Name()
		return pl, true
	}
	return statePlace{}, false
}

// globalOf finds the variable an address lies in, without following references.
func globalOf(a ssa.Value) *ssa.Global {
	for {
		switch v := a.(type) {
		case *ssa.Global:
			return v
		case *ssa.FieldAddr:
			a = v.X
		case *ssa.IndexAddr:
			if _, ok := v.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			a = v.X
		default:
			return nil
		}
	}
}

type placeSet map[statePlace]bool

func (s placeSet) covers(p statePlace) bool {
	for q := range s {
		if q.g == p.g && (q.path == p.path || strings.HasPrefix(p.path, q.path+".") || q.path == "") {
			return true
		}
	}
	return false
}

type stateSum struct {
	// reads of places nobody below has set before
	exposed map[statePlace]ssa.Instruction
	// places set at every end; nil stands for a function that never ends
	sets placeSet
}

type stateCheck struct {
	p    *Prog
	r    *Report
	all  []*ssa.Function
	in   map[*ssa.Function]bool
	sums map[*ssa.Function]*stateSum
}

// freshFor tells that a value stored into g does not stem from what any
// package level variable refers to.
func freshFor(v ssa.Value) bool {
	if !pointerLike(v.Type()) {
		return true
	}
	for r := range heapRoots(v) {
		if r.global != nil {
			return false
		}
	}
	return true
}

func joinSets(a, b placeSet) placeSet {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	out := placeSet{}
	for p := range a {
		if b.covers(p) {
			out[p] = true
		}
	}
	for p := range b {
		if a.covers(p) {
			out[p] = true
		}
	}
	return out
}

// pass computes the summary of f from those of what it calls.
func (c *stateCheck) pass(f *ssa.Function) *stateSum {
	sum := &stateSum{exposed: map[statePlace]ssa.Instruction{}}
	ins := map[*ssa.BasicBlock]placeSet{}
	outs := map[*ssa.BasicBlock]placeSet{}
	var end placeSet
	ended := false
	for again := true; again; {
		again = false
		end, ended = nil, false
		for _, b := range f.Blocks {
			var s placeSet
			if b == f.Blocks[0] {
				s = placeSet{}
			}
			for _, q := range b.Preds {
				s = joinSets(s, outs[q])
			}
			ins[b] = s
			if s == nil {
				continue
			}
			cur := placeSet{}
			for p := range s {
				cur[p] = true
			}
			cur = c.block(b, cur, sum)
			if cur != nil {
				if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					end = joinSets(end, cur)
					ended = true
				}
			}
			if !sameSets(outs[b], cur) {
				outs[b] = cur
				again = true
			}
		}
	}
	if ended {
		sum.sets = end
	}
	// reads are collected again, now that the sets are final
	sum.exposed = map[statePlace]ssa.Instruction{}
	for _, b := range f.Blocks {
		if ins[b] == nil {
			continue
		}
		cur := placeSet{}
		for p := range ins[b] {
			cur[p] = true
		}
		c.block(b, cur, sum)
	}
	return sum
}

func sameSets(a, b placeSet) bool {
	if (a == nil) != (b == nil) || len(a) != len(b) {
		return false
	}
	for p := range a {
		if !b[p] {
			return false
		}
	}
	return true
}

// block follows the instructions of a block; nil when its end is not reached.
func (c *stateCheck) block(b *ssa.BasicBlock, cur placeSet, sum *stateSum) placeSet {
	read := func(pl statePlace, in ssa.Instruction) {
		if !cur.covers(pl) && sum.exposed[pl] == nil {
			sum.exposed[pl] = in
		}
	}
	for _, in := range b.Instrs {
		switch i := in.(type) {
		case *ssa.UnOp:
			if pl, ok := statePlaceOf(i.X); ok && i.Op.String() == "*" {
				if !onlyCleared(i) {
					read(pl, in)
				}
			} else if g := globalOf(i.X); g != nil && i.Op.String() == "*" {
				read(statePlace{g: g}, in)
			}
		case *ssa.Store:
			if pl, ok := statePlaceOf(i.Addr); ok && freshFor(i.Val) {
				cur[pl] = true
			}
		case *ssa.Slice:
			if g := globalOf(i.X); g != nil {
				read(statePlace{g: g}, in)
			}
		case *ssa.Panic:
			return nil
		case ssa.CallInstruction:
			cc := i.Common()
			if bi, ok := cc.Value.(*ssa.Builtin); ok {
				if bi.Name() == "clear" {
					if u, ok := cc.Args[0].(*ssa.UnOp); ok {
						if pl, ok := statePlaceOf(u.X); ok {
							cur[pl] = true
						}
					}
				}
				continue
			}
			if g := cc.StaticCallee(); g != nil && noReturn(c.p.extName(g)) {
				return nil
			}
			// addresses handed on may be read there
			for _, a := range cc.Args {
				if g := globalOf(a); g != nil {
					read(statePlace{g: g}, in)
				}
			}
			var sets placeSet
			known := 0
			for _, g := range c.p.mayCall(i) {
				s := c.sums[g]
				if s == nil {
					if c.in[g] {
						known++ // not computed yet: taken to set everything
						continue
					}
					sets = placeSet{}
					known++
					continue
				}
				for pl, at := range s.exposed {
					read(pl, at)
				}
				known++
				if s.sets != nil {
					sets = joinSets(sets, s.sets)
				}
			}
			if _, ok := in.(*ssa.Call); !ok {
				continue // at some other time
			}
			if known == 0 {
				continue
			}
			if g := cc.StaticCallee(); g != nil && !c.in[g] {
				continue // a function of a library may or may not call back
			}
			if sets == nil {
				return nil // what is called never comes back
			}
			for p := range sets {
				cur[p] = true
			}
		}
	}
	return cur
}

// onlyCleared: the reference is loaded just to empty what it refers to.
func onlyCleared(v *ssa.UnOp) bool {
	for _, u := range *v.Referrers() {
		ci, ok := u.(*ssa.Call)
		if !ok {
			return false
		}
		bi, ok := ci.Call.Value.(*ssa.Builtin)
		if !ok || bi.Name() != "clear" {
			return false
		}
	}
	return len(*v.Referrers()) > 0
}

func (p *Prog) extName(g *ssa.Function) string {
	if g.Pkg == nil {
		return g.Name()
	}
	return g.Pkg.Pkg.Path() + "." + g.Name()
}

func runState(p *Prog, r *Report) {
	var entries []*ssa.Function
	for _, f := range p.funcs {
		if inPkg(f, "pkg/fbdl") && pkgOf(f).Path() == p.mod+"/pkg/fbdl" && f.Parent() == nil && isExportedFunc(f) {
			entries = append(entries, f)
		}
	}
	r.ob("entry", "library", len(entries) > 0, "-", "the function of the library that compiles was not found")
	c := &stateCheck{p: p, r: r, in: map[*ssa.Function]bool{}, sums: map[*ssa.Function]*stateSum{}}
	g := p.cycleGraph()
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if c.in[f] {
			return
		}
		c.in[f] = true
		c.all = append(c.all, f)
		r.funcs[p.fname(f)] = true
		for _, e := range g.out[f] {
			add(e.to)
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, q := range p.mayCall(ci) {
						add(q)
					}
				}
			}
		}
	}
	for _, f := range entries {
		add(f)
	}
	r.ob("entry", "functions", len(c.all) >= 100, "-", "only %d functions are reached from the library", len(c.all))

	// what may be changed while compiling
	type change struct {
		in   ssa.Instruction
		kind string
		key  string
	}
	changed := map[*ssa.Global][]change{}
	h := newHeap(p)
	for _, f := range entries {
		for _, w := range h.writes(f) {
			if w.root.global == nil {
				continue
			}
			if w.kind == "io" || w.kind == "read" {
				continue
			}
			if strings.HasPrefix(pkgPathOf(w.root.global), p.mod) {
				changed[w.root.global] = append(changed[w.root.global], change{w.in, w.kind, w.key})
			} else {
				r.bad("process", pkgPathOf(w.root.global)+"."+w.root.global.Name(), p.pos(w.in.Pos()), "a variable of a library is changed, which stays so after the compilation")
			}
		}
	}
	for _, f := range c.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if st, ok := in.(*ssa.Store); ok {
					if g := globalOf(st.Addr); g != nil && strings.HasPrefix(pkgPathOf(g), p.mod) {
						changed[g] = append(changed[g], change{in, "store", ""})
					} else if g != nil {
						r.bad("process", pkgPathOf(g)+"."+g.Name(), p.pos(in.Pos()), "a variable of a library is changed, which stays so after the compilation")
					}
				}
				if ci, ok := in.(ssa.CallInstruction); ok {
					if q := ci.Common().StaticCallee(); q != nil && lasting[p.extName(q)] {
						r.bad("process", p.fname(f)+" "+p.extName(q), p.pos(in.Pos()), "%s changes the process, which stays so after the compilation", p.extName(q))
					}
				}
				// an address handed to a library may be written there
				if ci, ok := in.(ssa.CallInstruction); ok {
					if q := ci.Common().StaticCallee(); q != nil && !p.inRepo(q) {
						for _, a := range ci.Common().Args {
							if g := globalOf(a); g != nil && strings.HasPrefix(pkgPathOf(g), p.mod) && !syncType(deref(g.Type())) {
								changed[g] = append(changed[g], change{in, "store", ""})
							}
						}
					}
				}
			}
		}
		// variables of functions made when the program starts
		if f.Parent() != nil && f.Parent().Name() == "init" && f.Parent().Synthetic != "" {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if st, ok := in.(*ssa.Store); ok {
						if _, ok := st.Addr.(*ssa.FreeVar); ok {
							r.bad("set-first", p.fname(f), p.pos(in.Pos()), "a variable that outlives the compilation is changed")
						}
					}
				}
			}
		}
	}
	r.ob("process", "functions", true, "", "")

	// what is read before it is set
	for again := true; again; {
		again = false
		for _, f := range c.all {
			s := c.pass(f)
			o := c.sums[f]
			if o == nil || !sameSets(o.sets, s.sets) || len(o.exposed) != len(s.exposed) {
				c.sums[f] = s
				again = true
			}
		}
	}
	exposed := map[*ssa.Global]map[statePlace]ssa.Instruction{}
	for _, f := range entries {
		for pl, in := range c.sums[f].exposed {
			if exposed[pl.g] == nil {
				exposed[pl.g] = map[statePlace]ssa.Instruction{}
			}
			exposed[pl.g][pl] = in
		}
	}
	var globals []*ssa.Global
	for _, pk := range p.spkg {
		for _, m := range pk.Members {
			if g, ok := m.(*ssa.Global); ok && !strings.HasPrefix(g.Name(), "init$") {
				globals = append(globals, g)
			}
		}
	}
	sort.Slice(globals, func(i, j int) bool { return globals[i].String() < globals[j].String() })
	for _, g := range globals {
		name := p.gname(g)
		chs := changed[g]
		if len(chs) == 0 {
			r.okob("constant", name, true, "", "")
			c.escapes(g)
			continue
		}
		sort.Slice(chs, func(i, j int) bool { return p.pos(chs[i].in.Pos()) < p.pos(chs[j].in.Pos()) })
		ex := exposed[g]
		if len(ex) == 0 {
			r.okob("set-first", name, true, "", "")
			continue
		}
		// marks that are taken away again
		if syncType(deref(g.Type())) {
			r.okob("set-first", name, true, "", "")
			continue
		}
		marks := true
		var why string
		for _, ch := range chs {
			ok, msg := c.restored(g, ch.in)
			if !ok {
				marks = false
				why = msg + " (" + p.pos(ch.in.Pos()) + ")"
				break
			}
		}
		if marks {
			r.okob("restored", name, true, "", "")
			continue
		}
		var keys []string
		for pl, in := range ex {
			keys = append(keys, p.pos(in.Pos())+"|"+pl.path)
		}
		sort.Strings(keys)
		pos, path, _ := strings.Cut(keys[0], "|")
		r.bad("set-first", name+path, pos, "%s%s, which outlives a compilation, is read before this compilation has set it, and is changed: %s", name, path, why)
	}
	r.ob("constant", "variables", len(globals) > 0, "-", "no package level variable was found")
}

// lasting lists functions with an effect on the process that stays.
var lasting = map[string]bool{
	"os.Chdir": true, "os.Setenv": true, "os.Unsetenv": true, "os.Clearenv": true,
	"math/rand.Seed": true, "syscall.Chdir": true, "syscall.Setenv": true,
}

func syncType(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync" {
		return false
	}
	switch n.Obj().Name() {
	case "Mutex", "RWMutex", "WaitGroup":
		return true
	}
	return false
}

func pkgPathOf(g *ssa.Global) string {
	if g.Pkg == nil {
		return ""
	}
	return g.Pkg.Pkg.Path()
}

func (p *Prog) gname(g *ssa.Global) string {
	return strings.TrimPrefix(strings.TrimPrefix(pkgPathOf(g), p.mod), "/") + "." + g.Name()
}

func isExportedFunc(f *ssa.Function) bool {
	return f.Object() != nil && f.Object().Exported() && f.Signature.Recv() == nil
}

// escapes: a reference into a table is kept in another place, and something of
// its type is changed through a reference of unknown origin.
func (c *stateCheck) escapes(g *ssa.Global) {
	t := deref(g.Type())
	if !pointerLike(t) || isErrorType(t) {
		return
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return
	}
	for _, f := range c.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var v ssa.Value
				switch i := in.(type) {
				case *ssa.Store:
					if ownBase(i.Addr) {
						if a, ok := i.Addr.(*ssa.Alloc); ok && !a.Heap {
							continue
						}
					}
					v = i.Val
				case *ssa.MapUpdate:
					v = i.Value
				default:
					continue
				}
				if !pointerLike(v.Type()) {
					continue
				}
				from := false
				for q := range heapRoots(v) {
					from = from || q.global == g
				}
				if !from {
					continue
				}
				if at := c.changes(v.Type()); at != nil {
					c.r.bad("constant", c.p.gname(g), c.p.pos(in.Pos()), "a reference into %s is kept, and may be changed through it (%s)", c.p.gname(g), c.p.pos(at.Pos()))
				}
			}
		}
	}
}

// changes finds an instruction that changes what a reference of the type, from
// another place, refers to.
func (c *stateCheck) changes(t types.Type) ssa.Instruction {
	for _, f := range c.all {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				var base ssa.Value
				switch i := in.(type) {
				case *ssa.Store:
					switch a := i.Addr.(type) {
					case *ssa.FieldAddr:
						base = a.X
					case *ssa.IndexAddr:
						base = a.X
					}
				case *ssa.MapUpdate:
					base = i.Map
				}
				if base == nil || !types.Identical(base.Type().Underlying(), t.Underlying()) {
					continue
				}
				for q := range heapRoots(base) {
					if q.other || q.param != -1 {
						return in
					}
				}
			}
		}
	}
	return nil
}

// restored: what the instruction puts into the variable is taken away again
// whenever the function, or each that calls it, ends.
func (c *stateCheck) restored(g *ssa.Global, in ssa.Instruction) (bool, string) {
	switch i := in.(type) {
	case *ssa.MapUpdate:
	case ssa.CallInstruction:
		if bi, ok := i.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") {
			return true, ""
		}
		return false, "it is changed"
	default:
		return false, "it is changed"
	}
	f := in.Parent()
	for f.Parent() != nil {
		f = f.Parent()
	}
	return c.balanced(g, f, in, 3)
}

func (c *stateCheck) balanced(g *ssa.Global, f *ssa.Function, in ssa.Instruction, depth int) (bool, string) {
	ok := c.walkMarks(g, f, in)
	if ok {
		return true, ""
	}
	msg := "an entry that " + c.p.fname(f) + " adds may stay"
	if depth == 0 {
		return false, msg
	}
	n := 0
	for _, h := range c.all {
		calls := false
		for _, q := range c.p.callees(h) {
			calls = calls || q == f
		}
		if !calls {
			continue
		}
		n++
		if c.p.callInLoop(h, f) {
			return false, msg
		}
		top := h
		for top.Parent() != nil {
			top = top.Parent()
		}
		if ok, m := c.balanced(g, top, in, depth-1); !ok {
			return false, m
		}
	}
	return n > 0, msg
}

// walkMarks walks f: every entry it adds to the map is taken away at every end.
func (c *stateCheck) walkMarks(g *ssa.Global, f *ssa.Function, in ssa.Instruction) bool {
	p := c.p
	// a way out of a loop that adds entries, past the place that takes them away
	for b, blocks := range p.loopsOf(f) {
		adds, later := false, false
		for q := range blocks {
			for _, in := range q.Instrs {
				switch i := in.(type) {
				case *ssa.MapUpdate:
					for r := range heapRoots(i.Map) {
						adds = adds || r.global == g
					}
				case *ssa.Defer:
					later = true
				}
			}
		}
		if !adds || later {
			continue
		}
		for q := range blocks {
			for _, s := range q.Succs {
				if !blocks[s] && q != b && mayReturn(p, s) && !deferredBefore(f, b) {
					return false
				}
			}
		}
	}
	var e eachTrack
	good, found := true, false
	h := Hooks{
		Opaque: func(q *ssa.Function) bool {
			return pkgOf(q) != pkgOf(f) || !touches(q, g) && q != in.Parent()
		},
		MapSet: func(x *Exec, fr *Frame, at ssa.Instruction, m, k, v *Term) {
			m, k = x.find(m), x.find(k)
			if !(m.op == OpLoad && m.args[0].op == OpGlobal && strings.HasSuffix(m.args[0].aux, "."+g.Name())) {
				if at == in {
					good = false // not known to be the one kept in the variable
				}
				return
			}
			found = found || at == in
			if v == nil {
				e.act(x, "unmarked", m, k)
			} else {
				e.act(x, "marked", m, k)
			}
		},
		Deferred: func(x *Exec, fr *Frame, in *ssa.Defer, d deferred) {
			if d.name == "builtin delete" && len(d.args) == 2 {
				e.act(x, "unmarked", x.find(d.args[0]), x.find(d.args[1]))
				return
			}
			mc, ok := in.Call.Value.(*ssa.MakeClosure)
			if !ok {
				return
			}
			q := mc.Fn.(*ssa.Function)
			if len(q.Blocks) != 1 {
				return
			}
			for _, i := range q.Blocks[0].Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				bi, ok := ci.Common().Value.(*ssa.Builtin)
				if !ok || bi.Name() != "delete" {
					continue
				}
				mu, ok := ci.Common().Args[0].(*ssa.UnOp)
				if !ok || mu.X != g {
					continue
				}
				key := ci.Common().Args[1]
				if ct, ok := key.(*ssa.MakeInterface); ok {
					key = ct.X
				}
				if ku, ok := key.(*ssa.UnOp); ok {
					if fv, ok := ku.X.(*ssa.FreeVar); ok {
						for j, w := range q.FreeVars {
							if w == fv {
								cell := x.find(x.val(fr, mc.Bindings[j]))
								m := x.load(x.val(fr, g), mu.Type())
								e.act(x, "unmarked", x.find(m), x.find(x.load(cell, ku.Type())))
							}
						}
					}
				}
			}
		},
	}
	e.hook(&h)
	removed := func(x *Exec, ev Event, evs []Event) bool {
		for _, o := range evs {
			if o.Name != "unmarked" || o.Kind != ev.Kind || len(o.over) != len(ev.over) || x.find(o.Args[1]) != x.find(ev.Args[1]) {
				continue
			}
			same := true
			for j := range o.over {
				same = same && x.find(o.over[j]) == x.find(ev.over[j])
			}
			if same {
				return true
			}
		}
		return false
	}
	isMark := func(ev Event) bool {
		return ev.Name == "marked" && (ev.Kind == "act" || ev.Kind == "each")
	}
	// entries that some iteration adds and does not take away itself
	open := map[*loopCtx]map[eachKey]bool{}
	back, exit := h.BackEdge, h.LoopExit
	h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
		if x.quiet == 0 {
			evs := x.events[lc.evMark:]
			for _, ev := range evs {
				if isMark(ev) && !removed(x, ev, evs) {
					if open[lc] == nil {
						open[lc] = map[eachKey]bool{}
					}
					for i, a := range ev.Args {
						ev.Args = append([]*Term{}, ev.Args...)
						ev.Args[i] = x.find(a)
					}
					open[lc][ev.id()] = true
				}
			}
		}
		back(x, fr, lc, next)
	}
	h.LoopExit = func(x *Exec, fr *Frame, lc *loopCtx) {
		for id := range open[lc] {
			if e.sets[lc][id] == nil {
				good = false // not in every iteration
			}
		}
		exit(x, fr, lc)
	}
	x := newExec(p, h)
	x.run(f, x.params(f), func(fr *Frame, res *Term) {
		for _, ev := range x.events {
			if isMark(ev) && !removed(x, ev, x.events) {
				good = false
			}
		}
	})
	return good && found && x.fail == "" && x.paths > 0
}

// callInLoop tells whether h calls f in a loop.
func (p *Prog) callInLoop(h, f *ssa.Function) bool {
	for _, blocks := range p.loopsOf(h) {
		for b := range blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == f {
					return true
				}
			}
		}
	}
	return false
}

// touches tells whether f changes the map kept in g.
func touches(f *ssa.Function, g *ssa.Global) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.MapUpdate:
				for r := range heapRoots(i.Map) {
					if r.global == g {
						return true
					}
				}
			case ssa.CallInstruction:
				if bi, ok := i.Common().Value.(*ssa.Builtin); ok && bi.Name() == "delete" {
					for r := range heapRoots(i.Common().Args[0]) {
						if r.global == g {
							return true
						}
					}
				}
			}
		}
	}
	for _, q := range f.AnonFuncs {
		if touches(q, g) {
			return true
		}
	}
	return false
}

// mayReturn tells whether an end of the function is reached from the block.
func mayReturn(p *Prog, from *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock) bool
	visit = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return false
		}
		seen[b] = true
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Return:
				return true
			case *ssa.Call:
				if g := i.Call.StaticCallee(); g != nil && noReturn(p.extName(g)) {
					return false
				}
			}
		}
		for _, s := range b.Succs {
			if visit(s) {
				return true
			}
		}
		return false
	}
	return visit(from)
}

// deferredBefore: something is deferred before the block.
func deferredBefore(f *ssa.Function, b *ssa.BasicBlock) bool {
	for _, q := range f.Blocks {
		for _, in := range q.Instrs {
			if _, ok := in.(*ssa.Defer); ok && q.Dominates(b) {
				return true
			}
		}
	}
	return false
}

func init() {
	checks["C21"] = func(p *Prog, r *Report) {
		r.explain = "every package level variable that may change while the library compiles, and every function reached from it: on all paths it is set by this compilation before it is read, or its entries are taken away again"
		runState(p, r)
	}
}
