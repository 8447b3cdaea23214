package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func debugCycles(p *Prog) {
	g := p.cycleGraph()
	for _, c := range g.sccs() {
		var ns []string
		for _, f := range c {
			ns = append(ns, p.fname(f))
		}
		sort.Strings(ns)
		fmt.Println("SCC", len(ns), ns)
	}
	for _, f := range p.funcs {
		for _, l := range p.loopsOf(f) {
			_ = l
			fmt.Println("LOOP", p.fname(f), p.pos(f.Pos()))
		}
	}
}

type callEdge struct {
	from, to *ssa.Function
	at       ssa.CallInstruction
}

type cycleGraph struct {
	p    *Prog
	out  map[*ssa.Function][]callEdge
	fns  []*ssa.Function
	comp map[*ssa.Function]int
}

// cycleGraph is the graph of the calls between the functions of the repository,
// calls through interfaces go to every method that may answer.
func (p *Prog) cycleGraph() *cycleGraph {
	g := &cycleGraph{p: p, out: map[*ssa.Function][]callEdge{}}
	for _, f := range p.funcs {
		g.fns = append(g.fns, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					for _, h := range p.mayCall(ci) {
						g.out[f] = append(g.out[f], callEdge{f, h, ci})
					}
				}
			}
		}
	}
	return g
}

// mayCall are the functions of the repository a call may reach.
func (p *Prog) mayCall(ci ssa.CallInstruction) (out []*ssa.Function) {
	cc := ci.Common()
	if cc.IsInvoke() {
		return p.implementations(cc.Value.Type(), cc.Method)
	}
	add := func(g *ssa.Function) {
		if g != nil && len(g.Blocks) > 0 && (p.inRepo(g) || g.Parent() != nil && p.inRepo(g.Parent()) || g.Synthetic != "") {
			out = append(out, g)
		}
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		add(v)
		if !p.inRepo(v) {
			for _, a := range cc.Args {
				switch a := a.(type) {
				case *ssa.Function:
					add(a)
				case *ssa.MakeClosure:
					add(a.Fn.(*ssa.Function))
				}
			}
		}
	case *ssa.MakeClosure:
		add(v.Fn.(*ssa.Function))
	case *ssa.Builtin:
	default:
		for _, g := range p.funcValues(v.Type()) {
			add(g)
		}
	}
	return
}

// sccs are the sets of functions that call each other.
func (g *cycleGraph) sccs() (out [][]*ssa.Function) {
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	on := map[*ssa.Function]bool{}
	var stack []*ssa.Function
	n := 0
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		self := false
		for _, e := range g.out[f] {
			self = self || e.to == f
			if idx[e.to] == 0 {
				visit(e.to)
				if low[e.to] < low[f] {
					low[f] = low[e.to]
				}
			} else if on[e.to] && idx[e.to] < low[f] {
				low[f] = idx[e.to]
			}
		}
		if low[f] != idx[f] {
			return
		}
		var c []*ssa.Function
		for {
			h := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			on[h] = false
			c = append(c, h)
			if h == f {
				break
			}
		}
		if len(c) > 1 || self {
			out = append(out, c)
		}
	}
	for _, f := range g.fns {
		if idx[f] == 0 {
			visit(f)
		}
	}
	return
}

// ---- C23: recursion ends

// relation of an argument to a parameter of the caller
const (
	relNone   = 0
	relSame   = 1 // the same value, or what it points to
	relStrict = 2 // a part of it
)

type edgeInfo struct {
	edge    callEdge
	rel     [][]int // argument of the callee, parameter of the caller
	visits  int
	guarded bool
	fields  map[string]bool // fields gone through
}

// cycleScope tells whether recursion of the functions is about what the
// description defines, the recursion of the parser follows the text.
func cycleScope(c []*ssa.Function) bool {
	for _, f := range c {
		if inPkg(f, pkgAst) || inPkg(f, "internal/tok") {
			return false
		}
	}
	return true
}

// accessor tells whether everything f gives is part of its receiver.
func (p *Prog) accessor(f *ssa.Function) bool {
	if len(f.Blocks) == 0 || len(f.Params) != 1 || f.Signature.Results().Len() != 1 {
		return false
	}
	if v, ok := p.accessors[f]; ok {
		return v
	}
	if p.accessors == nil {
		p.accessors = map[*ssa.Function]bool{}
	}
	p.accessors[f] = false
	seen := map[ssa.Value]bool{}
	var from func(v ssa.Value) bool
	stored := func(a ssa.Value) bool {
		for _, u := range *a.Referrers() {
			switch u := u.(type) {
			case *ssa.Store:
				if u.Addr == a && !from(u.Val) {
					return false
				}
			case *ssa.IndexAddr:
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u && !from(st.Val) {
						return false
					}
				}
			case *ssa.FieldAddr:
				for _, w := range *u.Referrers() {
					if st, ok := w.(*ssa.Store); ok && st.Addr == u && !from(st.Val) {
						return false
					}
				}
			}
		}
		return true
	}
	from = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch w := v.(type) {
		case *ssa.Parameter, *ssa.Const:
			return true
		case *ssa.FieldAddr:
			return from(w.X)
		case *ssa.Field:
			return from(w.X)
		case *ssa.IndexAddr:
			return from(w.X)
		case *ssa.Index:
			return from(w.X)
		case *ssa.Lookup:
			return from(w.X)
		case *ssa.UnOp:
			return w.Op == token.MUL && from(w.X)
		case *ssa.MakeInterface:
			return from(w.X)
		case *ssa.ChangeInterface:
			return from(w.X)
		case *ssa.TypeAssert:
			return from(w.X)
		case *ssa.ChangeType:
			return from(w.X)
		case *ssa.Extract:
			return from(w.Tuple)
		case *ssa.Next:
			return from(w.Iter)
		case *ssa.Range:
			return from(w.X)
		case *ssa.Slice:
			return from(w.X)
		case *ssa.Phi:
			for _, e := range w.Edges {
				if !from(e) {
					return false
				}
			}
			return true
		case *ssa.MakeSlice:
			return stored(w)
		case *ssa.Alloc:
			return stored(w)
		case *ssa.Call:
			if b, ok := w.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return from(w.Call.Args[0]) && from(w.Call.Args[1])
			} else if ok && b.Name() == "ssa:wrapnilchk" {
				return from(w.Call.Args[0])
			}
			g := w.Call.StaticCallee()
			return g != nil && g != f && len(w.Call.Args) == 1 && p.accessor(g) && from(w.Call.Args[0])
		}
		return false
	}
	ok := true
	for _, b := range f.Blocks {
		if ret, is := b.Instrs[len(b.Instrs)-1].(*ssa.Return); is {
			ok = ok && from(ret.Results[0])
		}
	}
	p.accessors[f] = ok
	return ok
}

// partRel tells how t stems from the parameters of a walk.
func (p *Prog) partRel(x *Exec, t *Term, params []*Term, fields map[string]bool) []int {
	out := make([]int, len(params))
	strict := false
	for n := 0; n < 60; n++ {
		t = x.find(t)
		for i, q := range params {
			if t == q || t == x.find(q) {
				out[i] = relSame
				if strict {
					out[i] = relStrict
				}
			}
		}
		switch t.op {
		case OpIface, OpAssert, OpConv:
			t = t.args[0]
		case OpLoad:
			t = t.args[0]
		case OpExtract:
			t = t.args[0]
		case OpFieldAddr, OpField:
			_, f, _ := strings.Cut(t.aux, ":")
			fields[f] = true
			strict = true
			t = t.args[0]
		case OpIndexAddr, OpIndex, OpLookup, OpMapSlot, OpSlice:
			strict = strict || t.op != OpSlice
			t = t.args[0]
		case OpStruct:
			b := placeOf(x, t)
			if b == nil {
				return out
			}
			t = b
		case OpAlloc:
			// a copy in a variable
			c, ok := x.mem[t]
			if !ok || c.v == nil {
				return out
			}
			t = c.v
		case OpCall:
			if len(t.args) != 1 {
				return out
			}
			n := 0
			for _, g := range p.funcs {
				if p.fname(g) == baseName(t) {
					n++
					if !p.accessor(g) {
						return out
					}
				}
			}
			if n == 0 {
				// a method called through an interface
				ms := p.methodsNamed(baseName(t))
				if len(ms) == 0 {
					return out
				}
				for _, g := range ms {
					if !p.accessor(g) {
						return out
					}
				}
			}
			strict = true
			t = t.args[0]
		default:
			return out
		}
	}
	return out
}

// methodsNamed are the methods behind the name of a call through an interface.
func (p *Prog) methodsNamed(name string) (out []*ssa.Function) {
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().IsInvoke() {
					cc := ci.Common()
					if nm := types.TypeString(cc.Value.Type(), nil) + "." + cc.Method.Name(); strings.HasSuffix(nm, "/"+name) || nm == name {
						return p.implementations(cc.Value.Type(), cc.Method)
					}
				}
			}
		}
	}
	return
}

type marker struct {
	field  string     // of a structure
	typ    types.Type // of the object that is marked
	global string
}

func runCycles(p *Prog, r *Report) {
	g := p.cycleGraph()
	n := 0
	markers := map[marker]*ssa.Function{}
	for _, c := range g.sccs() {
		if !cycleScope(c) {
			continue
		}
		n++
		in := map[*ssa.Function]bool{}
		for _, f := range c {
			in[f] = true
		}
		sort.Slice(c, func(i, j int) bool { return p.fname(c[i]) < p.fname(c[j]) })
		infos := map[callEdge]*edgeInfo{}
		var order []*edgeInfo
		for _, f := range c {
			for _, e := range g.out[f] {
				if in[e.to] {
					i := &edgeInfo{edge: e, guarded: true, fields: map[string]bool{}}
					infos[e] = i
					order = append(order, i)
				}
			}
		}
		marks := map[*ssa.Function][]marker{}
		for _, f := range c {
			p.walkRecursive(r, f, in, infos, marks)
		}
		// what is not guarded has to go down
		name := p.fname(c[0])
		for _, i := range order {
			if i.visits == 0 {
				i.guarded = true // never reached
			}
		}
		var open []*edgeInfo
		for _, i := range order {
			if !i.guarded {
				open = append(open, i)
			}
		}
		// only what may come back counts
		sub := &cycleGraph{p: p, out: map[*ssa.Function][]callEdge{}, fns: c}
		for _, i := range open {
			sub.out[i.edge.from] = append(sub.out[i.edge.from], i.edge)
		}
		var bad []*edgeInfo
		var rest []*edgeInfo
		for _, s := range sub.sccs() {
			inS := map[*ssa.Function]bool{}
			for _, f := range s {
				inS[f] = true
			}
			sort.Slice(s, func(i, j int) bool { return p.fname(s[i]) < p.fname(s[j]) })
			var es []*edgeInfo
			for _, i := range open {
				if inS[i.edge.from] && inS[i.edge.to] {
					es = append(es, i)
				}
			}
			bad = append(bad, unmeasured(s, es)...)
			rest = append(rest, es...)
		}
		open = rest
		for _, i := range order {
			why := "a definition that refers to itself is followed without end"
			isBad := false
			for _, b := range bad {
				isBad = isBad || b == i
			}
			r.ob("recursion", p.fname(i.edge.from)+" to "+p.fname(i.edge.to), !isBad, p.pos(i.edge.at.Pos()), "%s calls %s neither with a part of what it was given nor under a mark that it is busy: %s", p.fname(i.edge.from), p.fname(i.edge.to), why)
		}
		up, down := false, false
		for _, i := range open {
			for f := range i.fields {
				switch {
				case f == "scope" || f == "file" || f == "Pkg" || f == "Scope" || f == "File":
					up = true
				case !p.embedded(f):
					down = true
				}
			}
		}
		r.ob("recursion", name+" direction", !(up && down && mixes(c)), p.pos(c[0].Pos()), "the recursion goes both into parts and up to what encloses them")
		for f, ms := range marks {
			for _, m := range ms {
				markers[m] = f
				// nothing of the marked kind is made on the way
				if m.typ == nil {
					continue
				}
				for h := range g.reachAll(c) {
					for _, b := range h.Blocks {
						for _, i := range b.Instrs {
							if a, ok := i.(*ssa.Alloc); ok && a.Heap && types.Identical(a.Type(), m.typ) {
								r.bad("fresh", p.fname(h), p.pos(a.Pos()), "what is marked as busy is made anew every time, so that the mark is never seen")
							}
						}
					}
				}
			}
		}
	}
	r.ob("fresh", "marks", true, "", "")
	// nobody else touches the marks
	for m, f := range markers {
		for _, h := range p.funcs {
			top := h
			for top.Parent() != nil {
				top = top.Parent()
			}
			if top == f || h.Name() == "init" || !p.inRepo(h) {
				continue
			}
			for _, b := range h.Blocks {
				for _, i := range b.Instrs {
					switch i := i.(type) {
					case *ssa.Store:
						if fa, ok := i.Addr.(*ssa.FieldAddr); ok && m.field != "" {
							st := fa.X.Type().Underlying().(*types.Pointer).Elem()
							if types.Identical(fa.X.Type(), m.typ) && st.Underlying().(*types.Struct).Field(fa.Field).Name() == m.field {
								if al, fresh := fa.X.(*ssa.Alloc); !fresh || !al.Heap {
									r.ob("mark", p.fname(h)+" "+m.field, p.helperOf(h, f), p.pos(i.Pos()), "the mark that something is busy is changed elsewhere")
								}
							}
						}
						if gl, ok := i.Addr.(*ssa.Global); ok && m.global != "" && gl.Name() == m.global {
							r.bad("mark", p.fname(h)+" "+m.global, p.pos(i.Pos()), "the marks that something is busy are changed elsewhere")
						}
					case ssa.CallInstruction:
						if bi, ok := i.Common().Value.(*ssa.Builtin); ok && (bi.Name() == "delete" || bi.Name() == "clear") && m.global != "" {
							if u, ok := i.Common().Args[0].(*ssa.UnOp); ok {
								if gl, ok := u.X.(*ssa.Global); ok && gl.Name() == m.global {
									r.ob("mark", p.fname(h)+" "+m.global, p.helperOf(h, f), p.pos(i.Pos()), "the marks that something is busy are changed elsewhere")
								}
							}
						}
					}
				}
			}
		}
	}
	r.ob("mark", "only", true, "", "")
	r.floor("recursion", 20)
	r.ob("recursion", "sets", n >= 6, "-", "only %d sets of functions call each other", n)
}

// embedded tells whether structures are embedded under the name.
func (p *Prog) embedded(name string) bool {
	for _, f := range p.funcs {
		if f.Signature.Recv() == nil {
			continue
		}
		t := f.Signature.Recv().Type()
		if q, ok := t.(*types.Pointer); ok {
			t = q.Elem()
		}
		if st, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() && st.Field(i).Name() == name {
					return true
				}
			}
		}
	}
	return false
}

// helperOf tells whether only f calls h.
func (p *Prog) helperOf(h, f *ssa.Function) bool {
	for _, g := range p.funcs {
		top := g
		for top.Parent() != nil {
			top = top.Parent()
		}
		if top == f {
			continue
		}
		for _, k := range p.callees(g) {
			if k == h {
				return false
			}
		}
	}
	return true
}

// mixes tells whether a set of functions is about definitions, which know
// both their parts and what encloses them.
func mixes(c []*ssa.Function) bool {
	for _, f := range c {
		if inPkg(f, pkgPrs) || inPkg(f, "internal/ins") {
			return true
		}
	}
	return false
}

func (g *cycleGraph) reachAll(c []*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function{}, c...)
	for len(work) > 0 {
		f := work[0]
		work = work[1:]
		if seen[f] {
			continue
		}
		seen[f] = true
		for _, e := range g.out[f] {
			work = append(work, e.to)
		}
	}
	return seen
}

// unmeasured chooses a parameter of every function so that every call goes to
// a part, or to the same thing without coming back. It gives calls for which
// that is impossible.
func unmeasured(c []*ssa.Function, open []*edgeInfo) []*edgeInfo {
	if len(open) == 0 {
		return nil
	}
	var best []*edgeInfo
	choice := map[*ssa.Function]int{}
	tries := 0
	check := func() []*edgeInfo {
		var bad []*edgeInfo
		flat := map[*ssa.Function][]*edgeInfo{}
		for _, e := range open {
			i, j := choice[e.edge.from], choice[e.edge.to]
			rel := relNone
			if i >= 0 && j >= 0 && j < len(e.rel) && i < len(e.rel[j]) {
				rel = e.rel[j][i]
			}
			switch rel {
			case relNone:
				bad = append(bad, e)
			case relSame:
				flat[e.edge.from] = append(flat[e.edge.from], e)
			}
		}
		// calls with the same thing must not come back
		state := map[*ssa.Function]int{}
		var visit func(f *ssa.Function)
		visit = func(f *ssa.Function) {
			state[f] = 1
			for _, e := range flat[f] {
				switch state[e.edge.to] {
				case 0:
					visit(e.edge.to)
				case 1:
					bad = append(bad, e)
				}
			}
			state[f] = 2
		}
		for _, f := range c {
			if state[f] == 0 {
				visit(f)
			}
		}
		return bad
	}
	var rec func(i int) bool
	rec = func(i int) bool {
		tries++
		if tries > 20000 {
			return false
		}
		if i == len(c) {
			bad := check()
			if best == nil || len(bad) < len(best) {
				best = append([]*edgeInfo{}, bad...)
				if len(bad) == 0 {
					best = []*edgeInfo{}
				}
			}
			return len(bad) == 0
		}
		n := len(c[i].Params) + len(c[i].FreeVars)
		if n == 0 {
			n = 1
		}
		for k := 0; k < n; k++ {
			choice[c[i]] = k
			// what is decided already must fit
			fits := true
			for _, e := range open {
				a, oka := choice[e.edge.from]
				b, okb := choice[e.edge.to]
				if oka && okb && (e.edge.from == c[i] || e.edge.to == c[i]) && (b >= len(e.rel) || a >= len(e.rel[b]) || e.rel[b][a] == relNone) {
					fits = false
				}
			}
			if fits && rec(i+1) {
				return true
			}
			delete(choice, c[i])
		}
		return false
	}
	if rec(0) {
		return nil
	}
	if best != nil && len(best) > 0 {
		return best
	}
	// blame the calls that go to nothing known
	var bad []*edgeInfo
	for _, e := range open {
		any := false
		for _, row := range e.rel {
			for _, v := range row {
				any = any || v != relNone
			}
		}
		if !any {
			bad = append(bad, e)
		}
	}
	if len(bad) == 0 {
		bad = open
	}
	return bad
}

// walkRecursive walks f and looks at every call back into the set.
func (p *Prog) walkRecursive(r *Report, f *ssa.Function, in map[*ssa.Function]bool, infos map[callEdge]*edgeInfo, marks map[*ssa.Function][]marker) {
	type seenMark struct {
		m, k *Term
	}
	var e eachTrack
	var params []*Term
	where := p.fname(f)
	addMark := func(m marker) {
		for _, o := range marks[f] {
			if o == m {
				return
			}
		}
		marks[f] = append(marks[f], m)
	}
	// guard tells whether the walk is under the protection of a mark.
	guard := func(x *Exec, args []*Term) bool {
		// a field of a parameter
		for l, v := range x.lits {
			var cell *Term
			l.contains(func(t *Term) bool {
				if t.op == OpLoad && t.args[0].op == OpFieldAddr {
					cell = t
				}
				return false
			})
			if cell == nil {
				continue
			}
			for i, q := range params {
				if cell.args[0].args[0] != q {
					continue
				}
				pt, ok := f.Params[i].Type().Underlying().(*types.Pointer)
				if !ok {
					continue
				}
				st, ok := pt.Elem().Underlying().(*types.Struct)
				if !ok {
					continue
				}
				_, name, _ := strings.Cut(cell.args[0].aux, ":")
				for j := 0; j < st.NumFields(); j++ {
					if st.Field(j).Name() != name {
						continue
					}
					if _, ok := st.Field(j).Type().Underlying().(*types.Basic); !ok {
						continue
					}
					now := x.find(x.load(cell.args[0], st.Field(j).Type()))
					if now == cell {
						continue
					}
					var c *Term
					if l == cell {
						c = now
					} else {
						c = x.substTerm(l, cell, now)
					}
					if tr := x.truth(c); tr == no && v || tr == yes && !v {
						addMark(marker{field: name, typ: f.Params[i].Type()})
						return true
					}
				}
			}
		}
		// an entry of a map
		for i, ev := range x.events {
			if ev.Name != "marked" || ev.Kind != "act" && ev.Kind != "each" {
				continue
			}
			ok := true
			for _, o := range x.events {
				if o.Name == "unmarked" && (o.Kind == "act" || o.Kind == "each") && o.Args[0] == ev.Args[0] {
					ok = false
				}
			}
			_ = i
			if ev.Kind == "each" {
				l := x.find(ev.over[len(ev.over)-1])
				ok = ok && len(ev.over) == 1 && (l.op != OpSlice || x.provesLE0(polyConst(1).add(x.ts.Poly(x.length(l)), -1)))
			}
			if !ok {
				continue
			}
			m := ev.Args[0]
			mk := marker{}
			if m.op == OpLoad && m.args[0].op == OpGlobal {
				nm := m.args[0].aux
				mk.global = nm[strings.LastIndexAny(nm, "./")+1:]
			} else {
				// the marks are handed on
				handed := false
				for _, a := range args {
					handed = handed || x.find(a) == m
				}
				if !handed {
					continue
				}
			}
			addMark(mk)
			return true
		}
		return false
	}
	h := Hooks{
		Opaque: func(g *ssa.Function) bool {
			return in[g] || pkgOf(g) != pkgOf(f) || !updatesMap(g) && (len(p.loopsOf(g)) > 0 || len(g.Blocks) > 12)
		},
		MapSet: func(x *Exec, fr *Frame, at ssa.Instruction, m, k, v *Term) {
			m, k = x.find(m), x.find(k)
			persistent := m.op == OpLoad && m.args[0].op == OpGlobal
			for _, q := range params {
				persistent = persistent || m == q
			}
			if !persistent {
				return
			}
			if v == nil {
				e.act(x, "unmarked", m, k)
				return
			}
			for l, b := range x.lits {
				if !b && (l.op == OpLookup || l.op == OpLookupOk) && x.find(l.args[0]) == m && x.find(l.args[1]) == k {
					if l.op == OpLookup && !x.find(v).isTrue() {
						continue
					}
					e.act(x, "marked", m, k)
					return
				}
			}
		},
		Call: func(x *Exec, fr *Frame, ci ssa.CallInstruction, name string, callee *ssa.Function, args []*Term) {
			for _, to := range p.mayCall(ci) {
				i := infos[callEdge{f, to, ci}]
				if i == nil || fr.fn != f {
					continue
				}
				i.visits++
				if !guard(x, args) {
					i.guarded = false
				}
				as := args
				var rel [][]int
				for _, a := range as {
					rel = append(rel, p.partRel(x, a, params, i.fields))
				}
				if i.rel == nil {
					i.rel = rel
					continue
				}
				for j := range i.rel {
					for k := range i.rel[j] {
						if j >= len(rel) || rel[j][k] < i.rel[j][k] {
							i.rel[j][k] = relNone
							if j < len(rel) {
								i.rel[j][k] = rel[j][k]
							}
						}
					}
				}
			}
		},
	}
	e.hook(&h)
	x := newExec(p, h)
	params = x.params(f)
	type ending struct {
		name string
		ok   bool
	}
	var endings []ending
	x.run(f, params, func(fr *Frame, res *Term) {
		if f.Signature.Results().Len() == 0 {
			return
		}
		ok := false
		if t := x.find(res); t.op == OpTuple && len(t.args) > 0 {
			ok = x.truth(x.ts.Bin(token.EQL, t.args[len(t.args)-1], x.ts.Nil(), false)) == no
		}
		for l, v := range x.lits {
			if !v {
				continue
			}
			if l.op == OpLookup || l.op == OpLookupOk {
				m := x.find(l.args[0])
				self := m.op != OpLoad || m.args[0].op != OpGlobal
				for o, w := range x.lits {
					if !w && (o.op == OpLookup || o.op == OpLookupOk) && x.find(o.args[0]) == m && x.find(o.args[1]) == x.find(l.args[1]) {
						self = true // set by this very call
					}
				}
				if !self {
					nm := m.args[0].aux
					endings = append(endings, ending{nm[strings.LastIndexAny(nm, "./")+1:], ok})
				}
			}
			if l.op == OpLoad && l.args[0].op == OpFieldAddr && len(params) > 0 && l.args[0].args[0] == params[0] {
				_, nm, _ := strings.Cut(l.args[0].aux, ":")
				endings = append(endings, ending{nm, ok})
			}
		}
	})
	for _, e := range endings {
		for _, mk := range marks[f] {
			if mk.global == e.name || mk.field == e.name {
				r.ob("reported", where, e.ok, p.pos(f.Pos()), "what depends on itself is not reported")
			}
		}
	}
	r.done(x, where)
}

// ---- C23: loops end

// counted tells whether a loop goes over a collection, or its header compares
// a number that changes by a constant with something that does not change.
func (p *Prog) counted(f *ssa.Function, header *ssa.BasicBlock, blocks map[*ssa.BasicBlock]bool) bool {
	for b := range blocks {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok {
				if rg, ok := n.Iter.(*ssa.Range); ok && !blocks[rg.Block()] && b == header {
					return true
				}
			}
		}
	}
	fixed := func(v ssa.Value) bool {
		switch w := v.(type) {
		case *ssa.Const, *ssa.Parameter:
			return true
		case ssa.Instruction:
			return !blocks[w.Block()]
		}
		return false
	}
	_, isIf := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	if !isIf {
		return false
	}
	iff := header.Instrs[len(header.Instrs)-1].(*ssa.If)
	stay := blocks[header.Succs[0]]
	if blocks[header.Succs[0]] == blocks[header.Succs[1]] {
		return false
	}
	cmp, ok := iff.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	// phi + const
	base := func(v ssa.Value) (*ssa.Phi, bool) {
		for {
			switch w := v.(type) {
			case *ssa.Phi:
				return w, w.Block() == header
			case *ssa.BinOp:
				if _, ok := w.Y.(*ssa.Const); ok && (w.Op == token.ADD || w.Op == token.SUB) {
					v = w.X
					continue
				}
			}
			return nil, false
		}
	}
	step := func(ph *ssa.Phi) int64 {
		d := int64(0)
		for i, e := range ph.Edges {
			if !blocks[header.Preds[i]] {
				continue
			}
			k := int64(0)
			v := e
			for v != ph {
				w, ok := v.(*ssa.BinOp)
				if !ok {
					return 0
				}
				c, ok := w.Y.(*ssa.Const)
				if !ok || c.Value == nil {
					return 0
				}
				n := c.Int64()
				switch w.Op {
				case token.ADD:
					k += n
				case token.SUB:
					k -= n
				default:
					return 0
				}
				v = w.X
			}
			if k == 0 || d != 0 && d != k {
				return 0
			}
			d = k
		}
		return d
	}
	op := cmp.Op
	x, y := cmp.X, cmp.Y
	for n := 0; n < 2; n++ {
		if ph, ok := base(x); ok && fixed(y) {
			d := step(ph)
			switch op {
			case token.LSS, token.LEQ:
				return d > 0 && stay || d < 0 && !stay
			case token.GTR, token.GEQ:
				return d < 0 && stay || d > 0 && !stay
			}
		}
		x, y = y, x
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	return false
}

// checkLoops: every loop of evaluation, instantiation and registerification
// ends, as something comes nearer to a bound in every iteration.
func checkLoops(p *Prog, r *Report) {
	n := 0
	for _, f := range p.funcs {
		if inPkg(f, pkgAst) || inPkg(f, "internal/tok") || inPkg(f, "internal/args") || !p.inRepo(f) || f.Synthetic != "" {
			continue
		}
		open := map[*ssa.BasicBlock]bool{}
		for h, blocks := range p.loopsOf(f) {
			n++
			grows := false
			for _, in := range h.Instrs {
				if ph, ok := in.(*ssa.Phi); ok && isChain(ph.Type()) {
					grows = true // members are distinct: see the rule on cycles
				}
			}
			if grows {
				continue
			}
			if !p.counted(f, h, blocks) {
				open[h] = true
			} else {
				r.ob("loop", p.fname(f)+" counted", true, p.pos(f.Pos()), "")
			}
		}
		if len(open) == 0 {
			continue
		}
		p.loopRanks(r, f, open)
	}
	r.ob("loop", "number", n >= 60, "-", "only %d loops were found", n)
}

func (p *Prog) loopRanks(r *Report, f *ssa.Function, open map[*ssa.BasicBlock]bool) {
	where := p.fname(f)
	type state struct {
		ranks map[string]bool
		seen  bool
		at    string
	}
	sums := map[*loopCtx]*state{}
	pos := p.pos(f.Pos())
	h := Hooks{
		Opaque: func(g *ssa.Function) bool {
			if g.Parent() != nil {
				return false
			}
			if rs := g.Signature.Results(); rs.Len() == 1 && pkgOf(g) == pkgOf(f) {
				if _, ok := rs.At(0).Type().Underlying().(*types.Signature); ok {
					return false
				}
			}
			return pkgOf(g) != pkgOf(f) || len(g.Blocks) > 6 || len(p.loopsOf(g)) > 0
		},
		Loaded: func(x *Exec, addr, val *Term, t types.Type) {
			if addr.op == OpGlobal && strings.HasSuffix(addr.aux, "usWidth") && isInteger(t) {
				x.assumeLE0(polyConst(1).add(x.ts.Poly(val), -1))
			}
		},
		BackEdge: func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
			if x.quiet > 0 || fr.fn != f || !open[lc.header] {
				return
			}
			o := sums[lc]
			if o == nil {
				o = &state{}
				sums[lc] = o
			}
			now := map[string]bool{}
			// a flag that ends the loop
			if iff, ok := lc.header.Instrs[len(lc.header.Instrs)-1].(*ssa.If); ok {
				c, leave := iff.Cond, !lc.blocks[lc.header.Succs[0]]
				for {
					n, ok := c.(*ssa.UnOp)
					if !ok || n.Op != token.NOT {
						break
					}
					c, leave = n.X, !leave
				}
				if ph, ok := c.(*ssa.Phi); ok && next[ph] != nil {
					if t := x.find(next[ph]); leave && t.isTrue() || !leave && t.isFalse() {
						return
					}
				}
			}
			// how a term looks in the next iteration
			move := func(t *Term) *Term {
				for ph, v := range next {
					t = x.substTerm(t, x.find(lc.phi[ph]), x.find(v))
				}
				t = x.substTerm(t, lc.k, x.ts.polyTerm(x.ts.Poly(lc.k).add(polyConst(1), 1)))
				cells := map[*Term]bool{}
				t.contains(func(u *Term) bool {
					if u.op == OpLoad {
						cells[u] = true
					}
					return false
				})
				for u := range cells {
					if c, ok := x.mem[u.args[0]]; ok && c.v != nil && x.find(c.v) != u {
						t = x.substTerm(t, u, x.find(c.v))
					}
				}
				return t
			}
			for l, v := range x.lits {
				if l.op != OpBin || l.aux != "<" && l.aux != "==" {
					continue
				}
				a, b := x.find(l.args[0]), x.find(l.args[1])
				if !x.isNumeric(a) || !x.isNumeric(b) {
					continue
				}
				na, nb := move(a), move(b)
				if na == a && nb == b {
					continue
				}
				d := x.substPoly(x.ts.Poly(b).add(x.ts.Poly(a), -1))    // distance now
				nd := x.substPoly(x.ts.Poly(nb).add(x.ts.Poly(na), -1)) // and next
				key := ""
				switch {
				case l.aux == "<" && v && x.provesLE0(nd.add(d, -1).add(polyConst(1), 1)):
					key = "up"
				case l.aux == "<" && !v && x.provesLE0(d.add(nd, -1).add(polyConst(1), 1)):
					key = "down"
				case l.aux == "==" && !v && x.samePoly(nd.add(d, -1), polyConst(-1)):
					key = "eq"
				case l.aux == "==" && !v && x.samePoly(nd.add(d, -1), polyConst(1)):
					key = "qe"
				}
				if key != "" {
					now[key+" "+short(a)+" "+short(b)] = true
				}
			}
			if !o.seen {
				o.ranks = now
				o.seen = true
				return
			}
			for k := range o.ranks {
				if !now[k] {
					delete(o.ranks, k)
				}
			}
		},
	}
	x := newExec(p, h)
	x.run(f, x.params(f), func(fr *Frame, res *Term) {})
	for _, o := range sums {
		r.ob("loop", where, len(o.ranks) > 0, pos, "nothing was found that brings a loop nearer to its end in every iteration")
	}
	r.done(x, where)
}

func init() {
	checks["C23"] = func(p *Prog, r *Report) {
		r.explain = "every recursion over definitions: each call goes to a part of what the caller was given, or the caller has marked what it is busy with"
		runCycles(p, r)
		checkLoops(p, r)
		q := newReport("C23", r.tier, p)
		checkAsked(p, q)
		n := 0
		for _, k := range q.order {
			if o := q.obs[k]; o.Rule == "cycle" || o.Rule == "chain" {
				n++
				r.ob(o.Rule, o.Construct, o.OK, o.Pos, "%s", o.Msg)
			}
		}
		r.ob("cycle", "places", n > 0, "-", "the chain of types was not found")
	}
}

// updatesMap tells whether f puts something into a map that may be a set.
func updatesMap(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.MapUpdate); ok {
				switch e := u.Map.Type().Underlying().(*types.Map).Elem().Underlying().(type) {
				case *types.Basic:
					return e.Info()&types.IsBoolean != 0
				case *types.Struct:
					return e.NumFields() == 0
				}
			}
		}
	}
	return false
}
