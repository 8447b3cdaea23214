package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C02: packages are parsed in parallel without races, and all of them.

func init() { checks["C02"] = checkParallel }

func checkParallel(p *Prog, r *Report) {
	r.explain = "every goroutine, wait group and lock of the repository: what goroutines and those who wait for them touch, under which locks; every package and file given to the parser"
	c := &raceCheck{p: p, r: r, lockMemo: map[*ssa.Function]map[ssa.Instruction][]heldLock{}, sites: map[string]bool{}}
	c.heap = newHeap(p)
	c.heap.reads = true
	c.heap.locks = c.locksAt
	c.lockStates()
	c.spawns()
	c.groups()
	checkEveryPackage(p, r)
	checkEveryFile(p, r)
	checkStages(p, r)
	r.floor("goroutine", 1)
	r.floor("join", 1)
	r.floor("balance", 2)
	r.floor("packages", 2)
	r.floor("files", 3)
	r.floor("stages", 4)
}

type raceCheck struct {
	p        *Prog
	r        *Report
	heap     *heap
	lockMemo map[*ssa.Function]map[ssa.Instruction][]heldLock
	sites    map[string]bool
}

func (c *raceCheck) code() (out []*ssa.Function) {
	for _, f := range c.p.funcs {
		if len(f.Blocks) > 0 && f.Synthetic == "" {
			out = append(out, f)
		}
	}
	return
}

// ---- locks

type heldLock struct {
	name string // which variable or field
	id   string // of which object
	base ssa.Value
	read bool
}

func lockMethod(ci ssa.CallInstruction) (op string, mu ssa.Value) {
	g := ci.Common().StaticCallee()
	if g == nil || g.Signature.Recv() == nil {
		return "", nil
	}
	t := deref(g.Signature.Recv().Type())
	if !isNamed(t, "sync", "Mutex") && !isNamed(t, "sync", "RWMutex") {
		return "", nil
	}
	return g.Name(), ci.Common().Args[0]
}

// canonAddr names an address within a function.
func canonAddr(v ssa.Value) (name, id string, base ssa.Value) {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		_, i, b := canonAddr(x.X)
		return fieldKey(deref(x.X.Type()), x.Field), i + "." + itoa(x.Field), b
	case *ssa.UnOp:
		if x.Op == token.MUL {
			n, i, b := canonAddr(x.X)
			return "*" + n, "*" + i, b
		}
	case *ssa.Global:
		return "g:" + x.String(), x.String(), x
	case *ssa.FreeVar:
		return "v:" + x.Name(), "free " + x.Name(), x
	case *ssa.Parameter:
		return "p:" + x.Name(), "param " + x.Name(), x
	case *ssa.Alloc:
		return "a:" + x.Comment, "alloc " + x.Name(), x
	}
	return "?:" + v.Name(), v.Name(), v
}

// states gives the locks held before every instruction of f.
func (c *raceCheck) states(f *ssa.Function) map[ssa.Instruction][]heldLock {
	if m, ok := c.lockMemo[f]; ok {
		return m
	}
	m := map[ssa.Instruction][]heldLock{}
	c.lockMemo[f] = m
	any := false
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if op, _ := lockMethod(ci); op != "" {
					any = true
				}
			}
		}
	}
	if !any {
		return m
	}
	in := map[*ssa.BasicBlock][]heldLock{}
	visited := map[*ssa.BasicBlock]bool{f.Blocks[0]: true}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 {
		b := work[0]
		work = work[1:]
		cur := append([]heldLock{}, in[b]...)
		for _, i := range b.Instrs {
			m[i] = append([]heldLock{}, cur...)
			if call, ok := i.(*ssa.Call); ok {
				op, mu := lockMethod(call)
				switch op {
				case "Lock", "RLock":
					n, id, base := canonAddr(mu)
					cur = append(cur, heldLock{n, id, base, op == "RLock"})
				case "Unlock", "RUnlock":
					_, id, _ := canonAddr(mu)
					var next []heldLock
					for _, l := range cur {
						if l.id != id {
							next = append(next, l)
						}
					}
					cur = next
				}
			}
		}
		for _, s := range b.Succs {
			if !visited[s] {
				visited[s] = true
				in[s] = cur
				work = append(work, s)
				continue
			}
			var both []heldLock
			for _, l := range in[s] {
				for _, k := range cur {
					if l.id == k.id {
						both = append(both, l)
						break
					}
				}
			}
			if len(both) != len(in[s]) {
				in[s] = both
				work = append(work, s)
			}
		}
	}
	return m
}

// locksAt names the locks held at an instruction that belong to the object the
// memory is reached from, or that everybody shares.
func (c *raceCheck) locksAt(in ssa.Instruction, root heapRoot) string {
	var out []string
	for _, l := range c.states(in.Parent())[in] {
		ok := false
		switch b := l.base.(type) {
		case *ssa.Global:
			ok = true
		case *ssa.Alloc:
			ok = false // nobody else has it
			if b.Heap {
				ok = captured(b)
			}
		case *ssa.FreeVar:
			ok = true
		}
		if heapRoots(l.base)[root] {
			ok = true
		}
		if p, is := l.base.(*ssa.Parameter); is && strings.HasPrefix(l.name, "p:") && p != nil {
			ok = true // a lock handed over
		}
		if ok {
			n := l.name
			if l.read {
				n = "r " + n
			}
			out = append(out, n)
		}
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func captured(a *ssa.Alloc) bool {
	for _, u := range *a.Referrers() {
		if _, ok := u.(*ssa.MakeClosure); ok {
			return true
		}
	}
	return false
}

// exclude tells whether the locks keep two accesses apart.
func exclude(a, b string) bool {
	if a == "" || b == "" {
		return false
	}
	for _, x := range strings.Split(a, ",") {
		for _, y := range strings.Split(b, ",") {
			rx, ry := strings.HasPrefix(x, "r "), strings.HasPrefix(y, "r ")
			if strings.TrimPrefix(x, "r ") == strings.TrimPrefix(y, "r ") && !(rx && ry) {
				return true
			}
		}
	}
	return false
}

// lockStates: a lock is given back on every way out, and never taken twice.
func (c *raceCheck) lockStates() {
	p, r := c.p, c.r
	takes := map[*ssa.Function]map[string]bool{}
	for _, f := range c.code() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.Call); ok {
					if op, mu := lockMethod(ci); op == "Lock" || op == "RLock" {
						n, _, _ := canonAddr(mu)
						if takes[f] == nil {
							takes[f] = map[string]bool{}
						}
						if strings.HasPrefix(n, "f:") || strings.HasPrefix(n, "g:") {
							takes[f][n] = true
						}
					}
				}
			}
		}
	}
	for _, f := range c.code() {
		type st struct{ held, free bool }
		ops := 0
		other := 0
		names := map[string]string{} // id -> name
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case ssa.CallInstruction:
					if op, mu := lockMethod(i); op != "" {
						ops++
						n, id, _ := canonAddr(mu)
						names[id] = n
						continue
					}
					other++
				case *ssa.Store, *ssa.MapUpdate:
					other++
				}
			}
		}
		if ops == 0 || ops == 1 && other == 0 {
			continue
		}
		for id, name := range names {
			construct := p.fname(f) + " " + shortKey(name)
			// the unlocking that is put off
			later := func(in ssa.Instruction) bool {
				d, ok := in.(*ssa.Defer)
				if !ok {
					return false
				}
				if op, mu := lockMethod(d); op == "Unlock" || op == "RUnlock" {
					_, i, _ := canonAddr(mu)
					return i == id
				}
				if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
					for _, b := range mc.Fn.(*ssa.Function).Blocks {
						for _, j := range b.Instrs {
							if ci, ok := j.(*ssa.Call); ok {
								if op, mu := lockMethod(ci); op == "Unlock" || op == "RUnlock" {
									n, _, _ := canonAddr(mu)
									return n == name || strings.HasPrefix(n, "v:")
								}
							}
						}
					}
				}
				return false
			}
			// bits: 1 free, 2 held, 4 free with unlocking put off, 8 held so
			type bits int
			state := map[*ssa.BasicBlock]bits{f.Blocks[0]: 1}
			work := []*ssa.BasicBlock{f.Blocks[0]}
			bad := ""
			var at token.Pos
			fail := func(pos token.Pos, what string) {
				if bad == "" {
					bad, at = what, pos
				}
			}
			for len(work) > 0 {
				b := work[0]
				work = work[1:]
				cur := state[b]
				for _, in := range b.Instrs {
					if later(in) {
						if cur&(4|8) != 0 {
							fail(in.Pos(), "unlocking is put off twice")
						}
						if cur&1 != 0 {
							cur = cur&^1 | 4
						}
						if cur&2 != 0 {
							cur = cur&^2 | 8
						}
						continue
					}
					switch i := in.(type) {
					case *ssa.Call:
						op, mu := lockMethod(i)
						if op == "" {
							if cur&(2|8) == 0 {
								continue
							}
							if g := i.Call.StaticCallee(); g != nil && p.inRepo(g) {
								again := takes[g][name]
								for q := range p.reach(g) {
									again = again || takes[q][name]
								}
								if again {
									fail(i.Pos(), "calls "+p.fname(g)+", which takes the lock again")
								}
							}
							continue
						}
						if _, j, _ := canonAddr(mu); j != id {
							continue
						}
						switch op {
						case "Lock", "RLock":
							if cur&(2|8) != 0 {
								fail(i.Pos(), "takes the lock twice")
							}
							if cur&1 != 0 {
								cur = cur&^1 | 2
							}
							if cur&4 != 0 {
								cur = cur&^4 | 8
							}
						case "Unlock", "RUnlock":
							if cur&(1|4) != 0 {
								fail(i.Pos(), "gives back a lock it does not hold")
							}
							if cur&2 != 0 {
								cur = cur&^2 | 1
							}
							if cur&8 != 0 {
								cur = cur&^8 | 4
							}
						}
					case *ssa.Return:
						if cur&2 != 0 {
							fail(i.Pos(), "returns without giving the lock back")
						}
						if cur&4 != 0 {
							fail(i.Pos(), "gives back a lock it does not hold")
						}
					}
				}
				if endsProgram(b) {
					continue
				}
				for _, s := range b.Succs {
					if state[s]|cur != state[s] {
						state[s] |= cur
						work = append(work, s)
					}
				}
			}
			r.ob("lock", construct, bad == "", p.pos(at), "%s", bad)
		}
	}
}

// endsProgram: the block does not come to its end.
func endsProgram(b *ssa.BasicBlock) bool {
	for _, in := range b.Instrs {
		if c, ok := in.(*ssa.Call); ok {
			if g := c.Call.StaticCallee(); g != nil && g.Pkg != nil && noReturn(g.Pkg.Pkg.Path()+"."+g.Name()) {
				return true
			}
		}
	}
	return false
}

// ---- goroutines

// a spawn is a place that starts goroutines, or that calls a function that
// starts them and does not wait for them.
type spawn struct {
	f    *ssa.Function
	in   ssa.CallInstruction
	body *ssa.Function
	mc   *ssa.MakeClosure
	args []ssa.Value
	wg   ssa.Value // what is waited on, nil when unknown
	// what it does, when it is not the body of its own
	acc map[string]raceAccess
}

type raceAccess struct {
	heapWrite
	private bool
}

func (a raceAccess) write() bool { return a.kind != "read" && a.kind != "io" }

func isWG(t types.Type) bool { return isNamed(deref(t), "sync", "WaitGroup") }

// wgMethod tells what a call does to a wait group.
func wgMethod(ci ssa.CallInstruction) (op string, wg ssa.Value) {
	g := ci.Common().StaticCallee()
	if g == nil || g.Signature.Recv() == nil || !isWG(g.Signature.Recv().Type()) || pkgPath(g) != "sync" {
		return "", nil
	}
	return g.Name(), ci.Common().Args[0]
}

func (c *raceCheck) spawns() {
	p, r := c.p, c.r
	var work []spawn
	for _, f := range c.code() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, is := in.(*ssa.Go); is {
					s := spawn{f: f, in: ci, args: ci.Common().Args}
					switch v := ci.Common().Value.(type) {
					case *ssa.Function:
						s.body = v
					case *ssa.MakeClosure:
						s.body, s.mc = v.Fn.(*ssa.Function), v
					}
					if s.body == nil || !p.inRepo(s.body) {
						r.ob("goroutine", p.fname(f)+" go", s.body != nil, p.pos(in.Pos()), "a goroutine of unknown code")
						continue
					}
					s.wg = c.doneOf(s)
					work = append(work, s)
				} else if op, wg := wgMethod(ci); op == "Go" {
					s := spawn{f: f, in: ci, wg: wg}
					switch v := ci.Common().Args[1].(type) {
					case *ssa.Function:
						s.body = v
					case *ssa.MakeClosure:
						s.body, s.mc = v.Fn.(*ssa.Function), v
					}
					if s.body == nil {
						r.bad("goroutine", p.fname(f)+" go", p.pos(in.Pos()), "a goroutine of unknown code")
						continue
					}
					work = append(work, s)
				}
			}
		}
	}
	for i := 0; i < len(work); i++ {
		s := work[i]
		where := p.fname(s.f) + " go " + p.fname(s.body)
		if c.sites[where+p.pos(s.in.Pos())] {
			continue
		}
		c.sites[where+p.pos(s.in.Pos())] = true
		if s.acc == nil {
			s.acc = c.accesses(s)
		}
		c.unshared(s, where)
		region, joined := c.pending(s)
		c.parent(s, where, region)
		if joined {
			r.ob("join", where, true, "", "")
			continue
		}
		// the callers wait
		n := 0
		pi := -1
		for i, q := range s.f.Params {
			if s.wg == q {
				pi = i
			}
		}
		if pi >= 0 {
			for _, f := range c.code() {
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						call, ok := in.(*ssa.Call)
						if !ok || call.Call.StaticCallee() != s.f {
							continue
						}
						n++
						up := spawn{f: f, in: call, body: s.body, args: call.Call.Args, wg: wgBase(call.Call.Args[pi])}
						up.acc = map[string]raceAccess{}
						for k, a := range s.acc {
							if j := a.root.param; j >= 0 && j < len(call.Call.Args) {
								for rt := range heapRoots(call.Call.Args[j]) {
									b := a
									b.root = rt
									b.private = a.private || iterates(call.Call.Args[j])
									up.acc[k+"/"+itoaSigned(rt.param)] = b
								}
								continue
							}
							up.acc[k] = a
						}
						work = append(work, up)
					}
				}
			}
		}
		r.ob("join", where, n > 0, p.pos(s.in.Pos()), "nothing waits for the goroutine to finish")
	}
}

// wgBase is the variable a reference to a wait group is of.
func wgBase(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.UnOp:
			// a captured pointer variable
			if a, ok := x.X.(*ssa.Alloc); ok {
				var only ssa.Value
				n := 0
				for _, u := range *a.Referrers() {
					if st, ok := u.(*ssa.Store); ok && st.Addr == a {
						only = st.Val
						n++
					}
				}
				if n == 1 {
					v = only
					continue
				}
			}
			return v
		default:
			return v
		}
	}
}

// doneOf finds the wait group the goroutine reports to.
func (c *raceCheck) doneOf(s spawn) ssa.Value {
	for i, a := range s.args {
		if isWG(a.Type()) && i < len(s.body.Params) {
			if lo, _ := c.doneCount(s.body, s.body.Params[i]); lo > 0 {
				return wgBase(a)
			}
		}
	}
	if s.mc != nil {
		for i, fv := range s.body.FreeVars {
			if lo, _ := c.doneCount(s.body, fv); lo > 0 {
				b := s.mc.Bindings[i]
				if isWG(deref(b.Type())) && !isWG(b.Type()) {
					return b
				}
				if al, ok := b.(*ssa.Alloc); ok && !isWGAlloc(al) {
					// a variable that holds a reference
					for _, u := range *al.Referrers() {
						if st, ok := u.(*ssa.Store); ok && st.Addr == al {
							return wgBase(st.Val)
						}
					}
				}
				return b
			}
		}
	}
	return nil
}

func isWGAlloc(a *ssa.Alloc) bool {
	return isNamed(a.Type().Underlying().(*types.Pointer).Elem(), "sync", "WaitGroup")
}

// doneCount is how often, at least and at most, a function reports to the wait
// group by the time it returns.
func (c *raceCheck) doneCount(g *ssa.Function, wg ssa.Value) (lo, hi int) {
	return c.doneCount1(g, wg, 0)
}

func refersTo(v, wg ssa.Value) bool {
	v = wgBase(v)
	if v == wg {
		return true
	}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		return u.X == wg
	}
	return false
}

// addsTo: the function adds to the wait group itself, and so has to see to the
// reports as well.
func addsTo(g *ssa.Function, wg ssa.Value) bool {
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			if ci, ok := in.(ssa.CallInstruction); ok {
				if op, v := wgMethod(ci); op == "Add" && refersTo(v, wg) {
					return true
				}
			}
		}
	}
	return false
}

const many = 9

func (c *raceCheck) doneCount1(g *ssa.Function, wg ssa.Value, depth int) (lo, hi int) {
	if depth > 4 || len(g.Blocks) == 0 || addsTo(g, wg) {
		return 0, 0
	}
	count := func(in ssa.Instruction) (int, int) {
		ci, ok := in.(ssa.CallInstruction)
		if !ok {
			return 0, 0
		}
		if _, is := in.(*ssa.Go); is {
			return 0, 0
		}
		if op, v := wgMethod(ci); op == "Done" {
			if refersTo(v, wg) {
				return 1, 1
			}
			return 0, 0
		}
		var q *ssa.Function
		cc := ci.Common()
		if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
			q = mc.Fn.(*ssa.Function)
			for i, b := range mc.Bindings {
				if b == wg || refersTo(b, wg) || storedIn(b, wg) {
					return c.doneCount1(q, q.FreeVars[i], depth+1)
				}
			}
			return 0, 0
		}
		q = cc.StaticCallee()
		if q == nil || !c.p.inRepo(q) {
			return 0, 0
		}
		for i, a := range cc.Args {
			if isWG(a.Type()) && refersTo(a, wg) && i < len(q.Params) {
				return c.doneCount1(q, q.Params[i], depth+1)
			}
		}
		return 0, 0
	}
	type span struct{ lo, hi int }
	at := map[*ssa.BasicBlock]span{g.Blocks[0]: {}}
	work := []*ssa.BasicBlock{g.Blocks[0]}
	out := span{many, -1}
	steps := 0
	for len(work) > 0 && steps < 10000 {
		steps++
		b := work[0]
		work = work[1:]
		cur := at[b]
		for _, in := range b.Instrs {
			l, h := count(in)
			cur.lo, cur.hi = min(cur.lo+l, many), min(cur.hi+h, many)
			if _, ok := in.(*ssa.Return); ok {
				out.lo, out.hi = min(out.lo, cur.lo), max(out.hi, cur.hi)
			}
		}
		if endsProgram(b) {
			continue
		}
		for _, s := range b.Succs {
			o, ok := at[s]
			n := cur
			if ok {
				n = span{min(o.lo, cur.lo), max(o.hi, cur.hi)}
			}
			if !ok || n != o {
				at[s] = n
				work = append(work, s)
			}
		}
	}
	if out.hi < 0 {
		return 0, 0
	}
	return out.lo, out.hi
}

// storedIn: v is a variable that holds wg.
func storedIn(v, wg ssa.Value) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *a.Referrers() {
		if st, ok := u.(*ssa.Store); ok && st.Addr == a && st.Val == wg {
			return true
		}
	}
	return false
}

// accesses is what the goroutine touches of what it does not make itself.
func (c *raceCheck) accesses(s spawn) map[string]raceAccess {
	out := map[string]raceAccess{}
	for k, w := range c.heap.writes(s.body) {
		a := raceAccess{heapWrite: w}
		i := w.root.param
		var v ssa.Value
		switch {
		case i >= 0 && i < len(s.args):
			v = s.args[i]
			a.private = iterates(v)
		case i <= -2 && s.mc != nil && -2-i < len(s.mc.Bindings):
			v = s.mc.Bindings[-2-i]
			a.private = iterates(v) || freshPerRound(s.f, v, c.p)
		}
		if v == nil {
			out[k] = a
			continue
		}
		rs := heapRoots(v)
		for r := range rs {
			b := a
			b.root = r
			out[k+"/"+itoaSigned(r.param)] = b
		}
		if len(rs) == 0 {
			out[k] = a
		}
	}
	return out
}

// harmless: memory nobody writes after the program has started, or that takes
// care of itself.
func (a raceAccess) harmless() bool { return a.kind == "io" }

// unshared: goroutines of the same place do not touch the same things, unless
// under a lock.
func (c *raceCheck) unshared(s spawn, where string) {
	p, r := c.p, c.r
	many := false
	for _, body := range p.loopsOf(s.f) {
		many = many || body[s.in.Block()]
	}
	n := 0
	for _, w := range sortedAccesses(s.acc) {
		if w.private || w.harmless() {
			n++
			continue
		}
		for _, o := range s.acc {
			if o.private || o.harmless() || o.key != w.key || !w.write() && !o.write() || exclude(w.locks, o.locks) {
				continue
			}
			if !many && w.root.global == nil {
				continue
			}
			wr, rd := w, o
			if !wr.write() {
				wr, rd = o, w
			}
			what := "written"
			if !rd.write() {
				what = "read"
			}
			c.conflict(where, wr, s.in.Pos(), "goroutines change "+shortKey(wr.key)+" ("+p.pos(wr.in.Pos())+") that is "+what+" by others ("+p.pos(rd.in.Pos())+") without a lock they share")
		}
		n++
	}
	r.ob("goroutine", where+" touches", n > 0, p.pos(s.in.Pos()), "the goroutine does nothing")
}

func sortedAccesses(m map[string]raceAccess) (out []raceAccess) {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, m[k])
	}
	return
}

func (c *raceCheck) conflict(where string, w raceAccess, pos token.Pos, msg string) {
	c.r.bad("race", where+" "+shortKey(w.key), c.p.pos(w.in.Pos()), "%s", msg)
}

// pending are the instructions that may be carried out before the goroutines
// have finished.
func (c *raceCheck) pending(s spawn) (region []ssa.Instruction, joined bool) {
	joined = s.wg != nil
	waits := func(in ssa.Instruction) bool {
		call, ok := in.(*ssa.Call)
		if !ok {
			return false
		}
		op, wg := wgMethod(call)
		return op == "Wait" && s.wg != nil && (wgBase(wg) == s.wg || refersTo(wg, s.wg))
	}
	put := false // waiting is put off to the end
	for _, b := range s.f.Blocks {
		for _, in := range b.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok || !before(d, s.in) {
				continue
			}
			op, wg := wgMethod(d)
			if op == "Wait" && s.wg != nil && wgBase(wg) == s.wg {
				put = true
			}
			if mc, ok := d.Call.Value.(*ssa.MakeClosure); ok {
				for _, b := range mc.Fn.(*ssa.Function).Blocks {
					for _, in := range b.Instrs {
						if call, ok := in.(*ssa.Call); ok {
							if op, wg := wgMethod(call); op == "Wait" {
								for i, fv := range mc.Fn.(*ssa.Function).FreeVars {
									if refersTo(wg, fv) && (mc.Bindings[i] == s.wg || storedIn(mc.Bindings[i], s.wg)) {
										put = true
									}
								}
							}
						}
					}
				}
			}
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, i int)
	walk = func(b *ssa.BasicBlock, i int) {
		for ; i < len(b.Instrs); i++ {
			in := b.Instrs[i]
			if waits(in) {
				return
			}
			region = append(region, in)
			if _, ok := in.(*ssa.Return); ok && !put {
				joined = false
			}
		}
		if endsProgram(b) {
			return
		}
		for _, n := range b.Succs {
			if !seen[n] {
				seen[n] = true
				walk(n, 0)
			}
		}
	}
	b := s.in.Block()
	for i, in := range b.Instrs {
		if in == s.in {
			walk(b, i+1)
		}
	}
	return
}

// parent: who started goroutines keeps away from what they touch until they
// have finished.
func (c *raceCheck) parent(s spawn, where string, region []ssa.Instruction) {
	p, r := c.p, c.r
	byKey := map[string][]raceAccess{}
	for _, a := range sortedAccesses(s.acc) {
		if !a.harmless() {
			byKey[a.key] = append(byKey[a.key], a)
		}
	}
	n := 0
	check := func(in ssa.Instruction, key string, write bool, locks string, at ssa.Instruction) {
		n++
		for _, a := range byKey[key] {
			if !write && !a.write() || exclude(locks, a.locks) {
				continue
			}
			what := "reads"
			if write {
				what = "changes"
			}
			r.bad("race", where+" "+shortKey(key), p.pos(in.Pos()), "%s %s %s (%s) while goroutines that touch it (%s) may still run", p.fname(s.f), what, shortKey(key), p.pos(at.Pos()), p.pos(a.in.Pos()))
		}
	}
	addr := func(in ssa.Instruction, a ssa.Value, write bool) {
		if al := p.rootAlloc(a); al != nil && !al.Heap {
			return
		}
		ks := map[string]bool{}
		if al := p.rootAlloc(a); al != nil {
			el := deref(a.Type())
			switch x := a.(type) {
			case *ssa.FieldAddr:
				ks[fieldKey(deref(x.X.Type()), x.Field)] = true
			case *ssa.IndexAddr:
				ks["e:"+types.TypeString(el, nil)] = true
			default:
				if isStruct(el) {
					structKeys(el, ks)
				} else {
					ks["c:"+types.TypeString(el, nil)] = true
				}
			}
		} else {
			p.addrKeys(a, ks)
		}
		for k := range ks {
			check(in, k, write, c.locksAt(in, anyRoot(a)), in)
		}
	}
	for _, in := range region {
		switch i := in.(type) {
		case *ssa.Store:
			addr(in, i.Addr, true)
		case *ssa.UnOp:
			if i.Op == token.MUL {
				addr(in, i.X, false)
			}
		case *ssa.MapUpdate:
			check(in, mapKey(i.Map), true, c.locksAt(in, anyRoot(i.Map)), in)
		case *ssa.Lookup:
			check(in, mapKey(i.X), false, c.locksAt(in, anyRoot(i.X)), in)
		case *ssa.Range:
			check(in, mapKey(i.X), false, c.locksAt(in, anyRoot(i.X)), in)
		case ssa.CallInstruction:
			if in == s.in {
				continue
			}
			if _, ok := in.(*ssa.Defer); ok {
				continue
			}
			for _, q := range calledBy(p, i) {
				if !p.inRepo(q) {
					continue
				}
				for _, w := range c.heap.writes(q) {
					if w.kind == "io" {
						continue
					}
					a := raceAccess{heapWrite: w}
					check(in, w.key, a.write(), joinLocks(w.locks, c.locksAt(in, w.root)), w.in)
				}
			}
		}
	}
	r.ob("goroutine", where+" parent", n >= 0, "", "")
}

func anyRoot(v ssa.Value) heapRoot {
	for r := range heapRoots(v) {
		return r
	}
	return heapRoot{param: -1, other: true}
}

func calledBy(p *Prog, ci ssa.CallInstruction) []*ssa.Function {
	cc := ci.Common()
	if cc.IsInvoke() {
		return p.implementations(cc.Value.Type(), cc.Method)
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		return []*ssa.Function{v}
	case *ssa.MakeClosure:
		return []*ssa.Function{v.Fn.(*ssa.Function)}
	case *ssa.Builtin:
		return nil
	}
	return p.funcValues(cc.Value.Type())
}
