package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: nothing that reaches the output depends on the order in which a map is
// walked, on scheduling, on time, chance or addresses.
//
// Every loop over a map, and every loop over a list that was filled in such an
// order, is an unordered loop. What one of its iterations does must commute
// with what the others do.

func init() { checks["C01"] = checkOrder }

func checkOrder(p *Prog, r *Report) {
	c := &orderCheck{p: p, r: r, seen: map[ssa.Value]bool{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]bool{},
		heap: newHeap(p), done: map[string]bool{}}
	c.run()
	r.explain = "every loop over a map, every list filled in map order, every source of time, chance, addresses or directory order, every unstable sort and every goroutine of the repository"
}

type orderCheck struct {
	p     *Prog
	r     *Report
	seen  map[ssa.Value]bool
	loops map[*ssa.Function]map[*ssa.BasicBlock]bool // unordered loops by header
	work  []*ssa.Function
	heap  *heap
	done  map[string]bool
	nmap  int
}

// code lists the functions that exist at run time.
func (c *orderCheck) code() (out []*ssa.Function) {
	for _, f := range c.p.funcs {
		if f.TypeParams().Len() > 0 && len(f.TypeArgs()) == 0 {
			continue
		}
		out = append(out, f)
	}
	return
}

func (c *orderCheck) run() {
	c.sources()
	for _, f := range c.code() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Range:
					if _, ok := in.X.Type().Underlying().(*types.Map); !ok {
						continue
					}
					c.nmap++
					for _, u := range *in.Referrers() {
						if nx, ok := u.(*ssa.Next); ok {
							c.addLoop(f, nx.Block())
						}
					}
				case *ssa.Call:
					if c.mapOrdered(in) {
						c.nmap++
						c.seqUses(in)
					}
				}
			}
		}
	}
	for len(c.work) > 0 {
		f := c.work[0]
		c.work = c.work[1:]
		c.walk(f)
	}
	c.r.ob("sources", "loops", c.nmap > 0, "-", "no loop over a map was found")
}

func (c *orderCheck) addLoop(f *ssa.Function, h *ssa.BasicBlock) {
	if c.loops[f] == nil {
		c.loops[f] = map[*ssa.BasicBlock]bool{}
	}
	if c.p.loopsOf(f)[h] == nil {
		return // left in the first round
	}
	if !c.loops[f][h] {
		c.loops[f][h] = true
		c.work = append(c.work, f)
	}
}

// mapOrdered: the result of the call is a list in map order.
func (c *orderCheck) mapOrdered(in *ssa.Call) bool {
	g := in.Call.StaticCallee()
	if g == nil {
		return false
	}
	n := c.p.fname(originOf(g))
	switch pk := pkgOf(g); {
	case pk == nil:
		return false
	case pk.Path() == "golang.org/x/exp/maps" && (originOf(g).Name() == "Keys" || originOf(g).Name() == "Values"):
		return true
	case pk.Path() == "slices" && originOf(g).Name() == "Collect":
		if k, ok := in.Call.Args[0].(*ssa.Call); ok && k.Call.StaticCallee() != nil {
			if q := pkgOf(k.Call.StaticCallee()); q != nil && q.Path() == "maps" {
				return true
			}
		}
	}
	_ = n
	return false
}

func originOf(f *ssa.Function) *ssa.Function {
	if o := f.Origin(); o != nil {
		return o
	}
	return f
}

// ob reports once per construct, a failure winning.
func (c *orderCheck) bad(rule, construct string, pos token.Pos, msg string) {
	k := rule + "|" + construct + "|" + msg
	if c.done[k] {
		return
	}
	c.done[k] = true
	c.r.bad(rule, construct, c.p.pos(pos), "%s", msg)
}

// chance names library functions whose results differ from run to run.
func chance(g *ssa.Function) string {
	pk := pkgOf(g)
	if pk == nil {
		return ""
	}
	n := g.Name()
	switch pk.Path() {
	case "math/rand", "math/rand/v2", "crypto/rand", "hash/maphash", "unique", "weak":
		return "a random source"
	case "runtime", "runtime/debug", "runtime/metrics":
		return "the state of the run time"
	case "time":
		switch n {
		case "Now", "Since", "Until", "After", "Tick", "AfterFunc", "NewTimer", "NewTicker":
			return "the time"
		}
	case "os":
		switch n {
		case "Getpid", "Getppid", "Hostname", "MkdirTemp", "CreateTemp", "Getuid", "Getgid":
			return "the process"
		case "Readdir", "Readdirnames", "ReadDir":
			if g.Signature.Recv() != nil {
				return "the order of a directory"
			}
		case "ModTime":
			return "a file's attributes"
		}
	case "reflect":
		switch n {
		case "MapKeys", "MapRange":
			return "the order of a map"
		case "Pointer", "UnsafePointer", "UnsafeAddr", "UnsafeMapKeys":
			return "an address"
		}
	case "sync":
		if n == "Range" || n == "Get" {
			return "the order of a map"
		}
	}
	return ""
}

func (c *orderCheck) sources() {
	p, r := c.p, c.r
	timed := map[*ssa.Function]bool{}
	for _, f := range c.code() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := p.pos(in.Pos())
				where := p.fname(f)
				switch in := in.(type) {
				case *ssa.Select:
					r.ob("sources", where, len(in.States) <= 1 && in.Blocking, pos, "a choice between channels depends on scheduling")
				case *ssa.Convert:
					if b, ok := in.Type().Underlying().(*types.Basic); ok && (b.Kind() == types.Uintptr || b.Kind() == types.UnsafePointer) {
						if _, con := in.X.(*ssa.Const); !con {
							r.bad("sources", where, pos, "an address is used as a value")
						}
					}
				case *ssa.Go:
					g := in.Call.StaticCallee()
					r.ob("sources", where+" go", g != nil, pos, "a goroutine of unknown code")
					if g != nil && p.inRepo(g) {
						mc, _ := in.Call.Value.(*ssa.MakeClosure)
						c.goroutine(f, in.Pos(), mc, in.Call.Args, g)
					}
				case *ssa.UnOp:
					if in.Op == token.ARROW {
						c.recv(f, in)
					}
				}
				ops := in.Operands(nil)
				for _, o := range ops {
					k, ok := (*o).(*ssa.Const)
					if ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(strings.ReplaceAll(constant.StringVal(k.Value), "%%", ""), "%p") {
						r.bad("sources", where, pos, "an address is printed")
					}
				}
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if ci.Common().IsInvoke() {
					if m := ci.Common().Method; m.Pkg() != nil && (m.Pkg().Path() == "io/fs" || m.Pkg().Path() == "os") && m.Name() == "ModTime" {
						r.bad("sources", where, pos, "uses a file's attributes")
					}
					continue
				}
				if g == nil {
					continue
				}
				if g.Name() == "Go" && g.Signature.Recv() != nil && !p.inRepo(g) {
					// started by a group
					for _, a := range ci.Common().Args[1:] {
						switch a := a.(type) {
						case *ssa.MakeClosure:
							c.goroutine(f, in.Pos(), a, nil, a.Fn.(*ssa.Function))
						case *ssa.Function:
							c.goroutine(f, in.Pos(), nil, nil, a)
						default:
							r.bad("sources", where, pos, "a goroutine of unknown code")
						}
					}
				}
				if what := chance(g); what == "the time" {
					timed[f] = true
				} else if what != "" {
					r.bad("sources", where, pos, "uses %s", what)
				}
				if isUnstableSort(g) {
					c.unstable(f, ci)
				}
				if printsAddress(ci) {
					r.bad("sources", where, pos, "a value that holds pointers is formatted as text")
				}
			}
		}
	}
	c.timestamps(timed)
}

// recv: a value received from a channel comes in the order of scheduling,
// unless nobody looks at it.
func (c *orderCheck) recv(f *ssa.Function, in *ssa.UnOp) {
	used := false
	for _, u := range *in.Referrers() {
		if _, ok := u.(*ssa.DebugRef); !ok {
			used = true
		}
	}
	c.r.ob("sources", c.p.fname(f)+" receive", !used, c.p.pos(in.Pos()), "values received from a channel come in the order of scheduling")
}

// printsAddress: fmt would print a pointer that lies inside of an argument.
func printsAddress(ci ssa.CallInstruction) bool {
	g := ci.Common().StaticCallee()
	pk := pkgOf(g)
	if pk == nil || pk.Path() != "fmt" || !strings.HasPrefix(g.Name(), "Sprint") && !strings.HasPrefix(g.Name(), "Fprint") && !strings.HasPrefix(g.Name(), "Append") {
		return false
	}
	args := ci.Common().Args
	if len(args) == 0 {
		return false
	}
	sl, ok := args[len(args)-1].(*ssa.Slice)
	if !ok {
		return false
	}
	a, ok := sl.X.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, u := range *a.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			st, ok := w.(*ssa.Store)
			if !ok {
				continue
			}
			if mi, ok := st.Val.(*ssa.MakeInterface); ok && holdsPointer(mi.X.Type(), true, 0) {
				return true
			}
		}
	}
	return false
}

// holdsPointer: fmt prints an address for a value of the type.
func holdsPointer(t types.Type, top bool, depth int) bool {
	if depth > 6 {
		return false
	}
	for _, q := range []types.Type{t} {
		ms := types.NewMethodSet(q)
		for _, n := range []string{"String", "Error", "Format"} {
			if s := ms.Lookup(nil, n); s != nil {
				return false
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if !top {
			return true
		}
		return holdsPointer(u.Elem(), false, depth+1)
	case *types.Chan, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if holdsPointer(u.Field(i).Type(), false, depth+1) {
				return true
			}
		}
	case *types.Slice:
		return holdsPointer(u.Elem(), false, depth+1)
	case *types.Array:
		return holdsPointer(u.Elem(), false, depth+1)
	case *types.Map:
		return holdsPointer(u.Elem(), false, depth+1) || holdsPointer(u.Key(), false, depth+1)
	}
	return false
}

// timestamps: the time is only asked for when a timestamp is wanted.
func (c *orderCheck) timestamps(timed map[*ssa.Function]bool) {
	p, r := c.p, c.r
	// functions that ask for the time, themselves or below
	reach := map[*ssa.Function]bool{}
	for f := range timed {
		reach[f] = true
	}
	guarded := func(f *ssa.Function, opt *ssa.Parameter) (bool, int, token.Pos) {
		ok, n := true, 0
		var pos token.Pos
		var h Hooks
		h.Opaque = func(g *ssa.Function) bool { return true }
		h.Call = func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, g *ssa.Function, args []*Term) {
			is := g != nil && (reach[g] || chance(g) == "the time")
			if !is {
				return
			}
			n++
			if opt == nil || x.truth(fr.env[opt]) != yes {
				ok = false
				pos = in.Pos()
			}
		}
		x := newExec(p, h)
		x.run(f, x.params(f), func(fr *Frame, res *Term) {})
		r.done(x, p.fname(f))
		return ok, n, pos
	}
	boolParam := func(f *ssa.Function) (out []*ssa.Parameter) {
		for _, q := range f.Params {
			if b, ok := q.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				out = append(out, q)
			}
		}
		return
	}
	isEntry := func(f *ssa.Function) bool {
		return token.IsExported(f.Name()) && f.Parent() == nil || f.Name() == "main" || f.Name() == "init"
	}
	ends := 0
	for round := 0; round < 20; round++ {
		grown := false
		for _, f := range c.code() {
			if reach[f] && round == 0 {
				ok := false
				for _, q := range boolParam(f) {
					if g, _, _ := guarded(f, q); g {
						ok = true
					}
				}
				if ok {
					delete(reach, f)
					ends++
					r.ob("timestamp", p.fname(f), true, p.pos(f.Pos()), "")
				} else {
					grown = true
				}
				continue
			}
			if reach[f] {
				continue
			}
			calls := false
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					if ci, ok := in.(ssa.CallInstruction); ok {
						if g := ci.Common().StaticCallee(); g != nil && reach[g] {
							calls = true
						}
						for _, a := range ci.Common().Args {
							if g, ok := a.(*ssa.Function); ok && reach[g] {
								calls = true
							}
						}
					}
					if mc, ok := in.(*ssa.MakeClosure); ok && reach[mc.Fn.(*ssa.Function)] {
						calls = true
					}
				}
			}
			if !calls || c.done["timestamp "+p.fname(f)] {
				continue
			}
			ok := false
			var pos token.Pos
			for _, q := range boolParam(f) {
				g, n, at := guarded(f, q)
				if g && n > 0 {
					ok = true
				} else if at.IsValid() {
					pos = at
				}
			}
			if ok {
				c.done["timestamp "+p.fname(f)] = true
				ends++
				r.ob("timestamp", p.fname(f), true, p.pos(f.Pos()), "")
				continue
			}
			if isEntry(f) {
				if !pos.IsValid() {
					pos = f.Pos()
				}
				c.done["timestamp "+p.fname(f)] = true
				r.bad("timestamp", p.fname(f), p.pos(pos), "%s", "the time may be asked for although no timestamp is wanted")
				continue
			}
			reach[f] = true
			grown = true
		}
		if !grown && round > 0 {
			break
		}
	}
	r.ob("timestamp", "guard", ends > 0 || len(timed) == 0, "-", "the time is asked for, but no option decides it")
}

func isUnstableSort(g *ssa.Function) bool {
	pk := pkgOf(g)
	if pk == nil {
		return false
	}
	n := originOf(g).Name()
	switch pk.Path() {
	case "sort":
		return n == "Slice" || n == "Sort"
	case "slices", "golang.org/x/exp/slices":
		return n == "SortFunc" || n == "SortedFunc"
	}
	return false
}

// unstable: two elements that are alike for the comparison of an unstable sort
// must have the same name, and names are unique.
func (c *orderCheck) unstable(f *ssa.Function, ci ssa.CallInstruction) {
	p, r := c.p, c.r
	args := ci.Common().Args
	construct := p.fname(f) + " sort"
	pos := p.pos(ci.Pos())
	if len(args) < 2 {
		c.bad("unstable", construct, ci.Pos(), "the order of like elements is not defined")
		return
	}
	ok, n := true, 0
	t := args[0].Type()
	if mi, is := args[0].(*ssa.MakeInterface); is {
		t = mi.X.Type()
	}
	sl, is := t.Underlying().(*types.Slice)
	if !is {
		c.bad("unstable", construct, ci.Pos(), "the order of like elements is not defined")
		return
	}
	byIndex := types.Identical(args[1].Type().Underlying().(*types.Signature).Params().At(0).Type(), types.Typ[types.Int]) && !types.Identical(sl.Elem(), types.Typ[types.Int])
	var h Hooks
	h.Opaque = func(g *ssa.Function) bool {
		return pkgOf(g) == nil || !p.inRepo(g) || g != f && g.Parent() == nil && len(g.Blocks) > 40
	}
	h.Call = func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, g *ssa.Function, as []*Term) {
		if in != ci || len(as) < 2 {
			return
		}
		n++
		list := as[0]
		for list.op == OpIface {
			list = list.args[0]
		}
		list = x.find(list)
		fn := x.find(as[1])
		m := x.mark()
		defer x.undo(m)
		a, b := x.ts.fresh(OpSym, "a", nil), x.ts.fresh(OpSym, "b", nil)
		ea, eb := a, b
		if byIndex {
			x.assumeLE0(polyConst(0).add(polyAtom(a), -1))
			x.assumeLE0(polyConst(0).add(polyAtom(b), -1))
			x.assume(x.ts.Bin(token.LSS, a, x.length(list), false), true)
			x.assume(x.ts.Bin(token.LSS, b, x.length(list), false), true)
			ea, eb = x.loadElem(list, a, sl.Elem()), x.loadElem(list, b, sl.Elem())
		}
		name1, name2 := c.nameOf(x, ea, sl.Elem()), c.nameOf(x, eb, sl.Elem())
		if fn.fn == nil || name1 == nil || name2 == nil && sl.Elem().Underlying() != nil {
			ok = false
			return
		}
		var free []*Term
		if fn.op == OpClosure {
			free = fn.args
		}
		tie := func(res *Term) bool { // continue with the elements being alike
			if isBoolTerm(x, res, fn.fn) {
				return x.assume(res, false)
			}
			return x.assume(x.ts.Bin(token.EQL, res, x.ts.Int(0), false), true)
		}
		x.quiet++
		f1 := x.newFrame(fn.fn, []*Term{a, b}, free, nil, nil)
		f1.k = func(res *Term) {
			m := x.mark()
			defer x.undo(m)
			if !tie(res) {
				return
			}
			f2 := x.newFrame(fn.fn, []*Term{b, a}, free, nil, nil)
			f2.k = func(res *Term) {
				m := x.mark()
				defer x.undo(m)
				if !tie(res) {
					return
				}
				if !sameText(x, name1, name2) {
					ok = false
				}
			}
			x.enter(f2)
		}
		x.enter(f1)
		x.quiet--
	}
	x := newExec(p, h)
	x.run(f, x.params(f), func(fr *Frame, res *Term) {})
	r.ob("unstable", construct, ok && n > 0, pos, "the sort is unstable and its comparison does not tell apart elements of different names")
}

func isBoolTerm(x *Exec, t *Term, f *ssa.Function) bool {
	return isBool(f.Signature.Results().At(0).Type())
}

// nameOf is what tells an element from the others of its list.
func (c *orderCheck) nameOf(x *Exec, e *Term, t types.Type) *Term {
	e = x.find(e)
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsString|types.IsInteger) != 0 {
		return e
	}
	pt, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	obj, path, _ := types.LookupFieldOrMethod(pt, true, pkgOfType(pt.Elem()), "Name")
	v, ok := obj.(*types.Var)
	if !ok {
		return nil
	}
	cur := e
	ct := pt.Elem()
	for i, idx := range path {
		st := ct.Underlying().(*types.Struct)
		cur = x.FieldAddr(cur, ct, idx)
		ct = st.Field(idx).Type()
		if q, ok := ct.Underlying().(*types.Pointer); ok && i+1 < len(path) {
			cur = x.load(cur, ct)
			ct = q.Elem()
		}
	}
	return x.find(x.load(cur, v.Type()))
}

func pkgOfType(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	return nil
}

// sameText: neither of two texts comes before the other.
func sameText(x *Exec, a, b *Term) bool {
	if x.find(a) == x.find(b) || x.truth(x.ts.Bin(token.EQL, a, b, false)) == yes {
		return true
	}
	if x.truth(x.ts.Bin(token.LSS, a, b, false)) == no && x.truth(x.ts.Bin(token.LSS, b, a, false)) == no {
		return true
	}
	// by a comparison function
	less := func(a, b *Term) (lt, gt bool) {
		for l, v := range x.lits {
			_ = v
			l.contains(func(t *Term) bool {
				if t.op == OpCall && len(t.args) == 2 {
					n := baseName(t)
					if n == "strings.Compare" || strings.HasPrefix(n, "cmp.Compare") || n == "bytes.Compare" {
						s := 0
						if x.find(t.args[0]) == x.find(a) && x.find(t.args[1]) == x.find(b) {
							s = 1
						} else if x.find(t.args[0]) == x.find(b) && x.find(t.args[1]) == x.find(a) {
							s = -1
						}
						if s != 0 {
							bd := x.bounds(x.substPoly(x.ts.Poly(t)))
							if bd.hasLo && bd.lo >= 0 {
								lt = lt || s > 0
								gt = gt || s < 0
							}
							if bd.hasHi && bd.hi <= 0 {
								gt = gt || s > 0
								lt = lt || s < 0
							}
						}
					}
				}
				return false
			})
		}
		return
	}
	lt, gt := less(a, b)
	return lt && gt
}

// seqUses follows a list, or a text, whose order depends on the order of a map.
func (c *orderCheck) seqUses(v ssa.Value) {
	if c.seen[v] {
		return
	}
	c.seen[v] = true
	f := v.Parent()
	refs := v.Referrers()
	if refs == nil {
		return
	}
	where := c.p.fname(f) + " " + v.Name()
	where = c.p.fname(f) + " unordered"
	// sorted from here on
	var sorted []ssa.Instruction
	for _, u := range *refs {
		if isSanitiser(u, v) {
			sorted = append(sorted, u)
		}
		if mi, ok := u.(*ssa.MakeInterface); ok {
			for _, w := range *mi.Referrers() {
				if isSanitiser(w, mi) {
					sorted = append(sorted, w)
				}
			}
		}
		if ct, ok := u.(*ssa.ChangeType); ok {
			for _, w := range *ct.Referrers() {
				if isSanitiser(w, ct) {
					sorted = append(sorted, w)
				}
			}
		}
	}
	if len(sorted) > 0 {
		c.r.ob("sorted", where, true, c.p.pos(v.Pos()), "")
	}
uses:
	for _, u := range *refs {
		for _, s := range sorted {
			if s == u || before(s, u) {
				continue uses
			}
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		switch u := u.(type) {
		case *ssa.Phi:
			c.seqUses(u)
		case *ssa.ChangeType, *ssa.MakeInterface, *ssa.ChangeInterface, *ssa.Convert:
			onlySort := len(sorted) > 0
			for _, w := range *u.(ssa.Value).Referrers() {
				found := false
				for _, s := range sorted {
					found = found || s == w
				}
				onlySort = onlySort && found
			}
			if !onlySort {
				c.seqUses(u.(ssa.Value))
			}
		case *ssa.Slice:
			if u.X == v {
				c.seqUses(u)
			}
		case *ssa.BinOp:
			if u.Op == token.ADD {
				c.seqUses(u)
			} else if !isNilConst(u.X) && !isNilConst(u.Y) && !emptyConst(u.X) && !emptyConst(u.Y) {
				c.bad("order", where, u.Pos(), "a comparison depends on the order of a map")
			}
		case *ssa.Return:
			c.returned(u, v)
		case *ssa.Store:
			if u.Val != v {
				continue
			}
			c.stored(u, v)
		case *ssa.IndexAddr:
			if u.X == v {
				c.indexed(f, u, v)
			}
		case *ssa.Index:
			c.bad("order", where, u.Pos(), "an element is taken by its place in an order that is a map's")
		case *ssa.Range:
			// a text walked rune by rune
			c.bad("order", where, u.Pos(), "a text made in the order of a map is used")
		case *ssa.Extract:
			c.seqUses(u)
		case *ssa.Call:
			c.seqCall(u, v, where)
		case *ssa.Defer, *ssa.Go:
			c.bad("order", where, u.Pos(), "a list in the order of a map is given to unknown code")
		case *ssa.MapUpdate:
			c.bad("order", where, u.Pos(), "a list in the order of a map is kept")
		case *ssa.Send, *ssa.Panic:
		default:
			c.bad("order", where, u.Pos(), "a list in the order of a map is used without being sorted")
		}
	}
}

func emptyConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.Value != nil && k.Value.Kind() == constant.String && constant.StringVal(k.Value) == ""
}

func isNilConst(v ssa.Value) bool {
	k, ok := v.(*ssa.Const)
	return ok && k.IsNil()
}

// isSanitiser: the instruction sorts v completely.
func isSanitiser(in ssa.Instruction, v ssa.Value) bool {
	ci, ok := in.(*ssa.Call)
	if !ok || len(ci.Call.Args) == 0 || ci.Call.Args[0] != v {
		return false
	}
	g := ci.Call.StaticCallee()
	if g == nil || pkgOf(g) == nil {
		return false
	}
	n := originOf(g).Name()
	switch pkgOf(g).Path() {
	case "sort":
		switch n {
		case "Strings", "Ints", "Float64s":
			return true
		case "Slice", "SliceStable":
			// a stable sort leaves like elements as they are, so both must tell names apart
			return totalOrder(ci)
		}
	case "slices", "golang.org/x/exp/slices":
		switch n {
		case "Sort":
			return true
		case "SortFunc", "SortStableFunc":
			return totalOrder(ci)
		}
	}
	return false
}

// totalOrder: the comparison function of the sort is "less" on the elements
// themselves.
func totalOrder(ci *ssa.Call) bool {
	var g *ssa.Function
	switch f := ci.Call.Args[1].(type) {
	case *ssa.Function:
		g = f
	case *ssa.MakeClosure:
		g, _ = f.Fn.(*ssa.Function)
	}
	if g == nil {
		return false
	}
	if pk := pkgOf(g); pk != nil && (pk.Path() == "cmp" || pk.Path() == "strings") && originOf(g).Name() == "Compare" {
		return true
	}
	if len(g.Blocks) != 1 || len(g.Params) != 2 {
		return false
	}
	var ret *ssa.Return
	for _, in := range g.Blocks[0].Instrs {
		if x, ok := in.(*ssa.Return); ok {
			ret = x
		}
	}
	if ret == nil || len(ret.Results) != 1 {
		return false
	}
	elem := func(v ssa.Value) *ssa.Parameter {
		for {
			switch x := v.(type) {
			case *ssa.Parameter:
				return x
			case *ssa.UnOp:
				ia, ok := x.X.(*ssa.IndexAddr)
				if !ok || x.Op != token.MUL {
					return nil
				}
				v = ia.Index
			default:
				return nil
			}
		}
	}
	var a, b ssa.Value
	switch x := ret.Results[0].(type) {
	case *ssa.BinOp:
		if x.Op != token.LSS && x.Op != token.GTR {
			return false
		}
		a, b = x.X, x.Y
	case *ssa.Call:
		h := x.Call.StaticCallee()
		if h == nil || originOf(h).Name() != "Compare" || len(x.Call.Args) != 2 {
			return false
		}
		a, b = x.Call.Args[0], x.Call.Args[1]
	default:
		return false
	}
	pa, pb := elem(a), elem(b)
	return pa != nil && pb != nil && pa != pb
}

// returned: the caller gets the list.
func (c *orderCheck) returned(ret *ssa.Return, v ssa.Value) {
	f := ret.Parent()
	idx := -1
	for i, q := range ret.Results {
		if q == v {
			idx = i
		}
	}
	if isErrorType(v.Type()) {
		return
	}
	called := false
	for _, g := range c.code() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				hit := ci.Common().StaticCallee() == f
				if ci.Common().IsInvoke() {
					for _, im := range c.p.implementations(ci.Common().Value.Type(), ci.Common().Method) {
						hit = hit || im == f
					}
				}
				if !hit {
					continue
				}
				called = true
				cv, ok := in.(*ssa.Call)
				if !ok {
					continue
				}
				if f.Signature.Results().Len() == 1 {
					c.seqUses(cv)
					continue
				}
				for _, u := range *cv.Referrers() {
					if e, ok := u.(*ssa.Extract); ok && e.Index == idx {
						c.seqUses(e)
					}
				}
			}
		}
	}
	if !called && token.IsExported(f.Name()) && f.Signature.Recv() == nil && !strings.Contains(pkgPath(f), "/internal/") {
		c.bad("order", c.p.fname(f)+" result", ret.Pos(), "a list in the order of a map is given to the user of the library")
	}
}

func pkgPath(f *ssa.Function) string {
	if pk := pkgOf(f); pk != nil {
		return pk.Path()
	}
	return ""
}

func isErrorType(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// stored: a local variable, or the arguments of a variadic call, hold the list.
func (c *orderCheck) stored(st *ssa.Store, v ssa.Value) {
	where := c.p.fname(st.Parent()) + " unordered"
	switch a := st.Addr.(type) {
	case *ssa.Alloc:
		for _, u := range *a.Referrers() {
			if ld, ok := u.(*ssa.UnOp); ok && ld.Op == token.MUL {
				c.seqUses(ld)
			}
			if mc, ok := u.(*ssa.MakeClosure); ok {
				_ = mc
				c.bad("order", where, st.Pos(), "a list in the order of a map is shared with a function")
			}
		}
		return
	case *ssa.IndexAddr:
		// variadic arguments
		if al, ok := a.X.(*ssa.Alloc); ok {
			for _, u := range *al.Referrers() {
				if sl, ok := u.(*ssa.Slice); ok {
					for _, w := range *sl.Referrers() {
						if call, ok := w.(*ssa.Call); ok {
							c.seqCall(call, sl, where)
						}
					}
				}
			}
			return
		}
	}
	c.bad("order", where, st.Pos(), "a list in the order of a map is kept")
}

// forHumans: what the function is given ends in messages only.
func forHumans(g *ssa.Function) bool {
	pk := pkgOf(g)
	if pk == nil {
		return false
	}
	switch pk.Path() {
	case "log":
		return true
	case "fmt":
		return g.Name() == "Errorf"
	case "errors":
		return true
	}
	return false
}

func (c *orderCheck) seqCall(u *ssa.Call, v ssa.Value, where string) {
	cc := u.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "len", "cap":
		case "append":
			c.seqUses(u)
		case "copy":
			c.seqUses(cc.Args[0])
		case "clear", "print", "println":
		default:
			c.bad("order", where, u.Pos(), "a list in the order of a map is used without being sorted")
		}
		return
	}
	g := cc.StaticCallee()
	if g == nil {
		c.bad("order", where, u.Pos(), "a list in the order of a map is given to unknown code")
		return
	}
	if forHumans(g) {
		return
	}
	if c.p.inRepo(g) {
		for i, a := range cc.Args {
			if a == v && i < len(g.Params) {
				c.seqUses(g.Params[i])
			}
		}
		return
	}
	pk := pkgOf(g)
	n := originOf(g).Name()
	switch {
	case pk.Path() == "fmt" && strings.HasPrefix(n, "Sprint"):
		c.seqUses(u)
		return
	case pk.Path() == "fmt" && strings.HasPrefix(n, "Fprint") && len(cc.Args) > 0 && isStderr(cc.Args[0]):
		return
	case pk.Path() == "strings" && (n == "Join" || n == "Repeat" || n == "TrimSuffix" || n == "TrimPrefix" || n == "TrimSpace" || n == "TrimRight"):
		c.seqUses(u)
		return
	case pk.Path() == "sort" || pk.Path() == "slices" || pk.Path() == "golang.org/x/exp/slices":
		switch n {
		case "Contains", "Sorted", "Max", "Min":
			return
		case "Clone", "Concat", "Compact":
			c.seqUses(u)
			return
		}
	}
	c.bad("order", where, u.Pos(), "a list in the order of a map is given to "+c.p.fname(g))
}

// indexed: one element of the list is used. It must be the only one, or the
// loop that visits them all is unordered.
func (c *orderCheck) indexed(f *ssa.Function, ia *ssa.IndexAddr, v ssa.Value) {
	where := c.p.fname(f) + " unordered"
	if c.onlyElement(f, ia, v) {
		c.r.ob("single", where, true, c.p.pos(ia.Pos()), "")
		return
	}
	var best *ssa.BasicBlock
	for h, body := range c.p.loopsOf(f) {
		if !body[ia.Block()] {
			continue
		}
		if best == nil || c.p.loopsOf(f)[best][h] && best != h {
			best = h
		}
	}
	stepped := false
	if best != nil {
		// the index goes through the loop's own counter
		var visit func(w ssa.Value, d int)
		visit = func(w ssa.Value, d int) {
			switch w := w.(type) {
			case *ssa.Phi:
				stepped = stepped || w.Block() == best
			case *ssa.BinOp:
				if d < 4 {
					visit(w.X, d+1)
					visit(w.Y, d+1)
				}
			}
		}
		visit(ia.Index, 0)
	}
	if !stepped {
		c.bad("order", where, ia.Pos(), "an element is taken by its place in an order that is a map's")
		return
	}
	c.addLoop(f, best)
}

// onlyElement: wherever the element is used the list has no other.
func (c *orderCheck) onlyElement(f *ssa.Function, ia *ssa.IndexAddr, v ssa.Value) bool {
	good, n := true, 0
	var h Hooks
	h.Opaque = func(g *ssa.Function) bool { return true }
	h.Load = func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
		u, ok := in.(*ssa.UnOp)
		if !ok || u.X != ssa.Value(ia) || fr.fn != f {
			return
		}
		n++
		l := fr.env[v]
		if l == nil {
			good = false
			return
		}
		p := x.ts.Poly(x.length(l)).add(polyConst(1), -1)
		good = good && x.provesLE0(p)
	}
	x := newExec(c.p, h)
	x.run(f, x.params(f), func(fr *Frame, res *Term) {})
	return good && n > 0 && x.fail == ""
}

// ---------------------------------------------------------------------------
// the loops

type orderPhi struct {
	konst *Term
}

func (c *orderCheck) walk(f *ssa.Function) {
	p := c.p
	hs := c.loops[f]
	callers := c.callers()
	follow := map[*ssa.Function]bool{}
	var mayFollow func(g *ssa.Function, d int)
	mayFollow = func(g *ssa.Function, d int) {
		if d > 3 {
			return
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				q := ci.Common().StaticCallee()
				if q == nil || !p.inRepo(q) || q == f || follow[q] || pkgOf(q) != pkgOf(f) || len(callers[q]) != 1 || len(c.loops[q]) > 0 {
					continue
				}
				if _, isGo := in.(*ssa.Go); isGo {
					continue
				}
				follow[q] = true
				mayFollow(q, d+1)
			}
		}
	}
	mayFollow(f, 0)
	for g := range follow {
		if g.Parent() == nil && c.recursive(g) {
			delete(follow, g)
		}
	}
	// the unordered loops a place is in, outermost first
	active := func(fr *Frame, b *ssa.BasicBlock) (out []*loopCtx) {
		for fr != nil {
			if fr.fn == f {
				for _, lc := range fr.loops {
					if hs[lc.header] && lc.blocks[b] {
						out = append(out, lc)
					}
				}
				return
			}
			if fr.call == nil {
				return
			}
			b = fr.call.Block()
			fr = fr.caller
		}
		return
	}
	name := p.fname(f)
	ownedBy := func(x *Exec, lc *loopCtx, t *Term) bool {
		return t.contains(func(u *Term) bool { return c.iter(x, lc, u) })
	}
	unique := func(x *Exec, lc *loopCtx) bool {
		if lc.rng == nil || lc.rng.key == nil {
			return false
		}
		k := x.find(lc.rng.key)
		if k != lc.rng.key && !ownedBy(x, lc, k) {
			return true
		}
		for l, v := range x.lits {
			if !v || l.op != OpBin || l.aux != "==" {
				continue
			}
			for i := 0; i < 2; i++ {
				if l.args[i] == lc.rng.key && !ownedBy(x, lc, l.args[1-i]) {
					return true
				}
			}
		}
		return false
	}
	early := map[*loopCtx]bool{}
	_ = early
	acts := map[*loopCtx]bool{}
	konst := map[string]*Term{}
	same := func(key string, v *Term) bool {
		if o, ok := konst[key]; ok {
			return o == v
		}
		konst[key] = v
		return true
	}
	var h Hooks
	h.Opaque = func(g *ssa.Function) bool { return !follow[g] && g.Parent() == nil }
	write := func(x *Exec, fr *Frame, in ssa.Instruction, lc *loopCtx, base, val, old *Term, what string) {
		base = x.find(base)
		if unique(x, lc) {
			c.r.okob("loop", name+" unique", true, "", "")
			return
		}
		if ownedBy(x, lc, base) {
			acts[lc] = true
			return
		}
		v := x.find(val)
		if old != nil {
			old = x.find(old)
			if v == old {
				return
			}
			if pv := x.ts.Poly(v).add(x.ts.Poly(old), -1); x.isNumeric(v) && !polyHas(pv, old) && !isFloatTerm(v) {
				return
			}
		}
		if !ownedBy(x, lc, v) && !v.contains(func(u *Term) bool { return u == old && old != nil }) && same(p.pos(in.Pos())+what, v) {
			return
		}
		c.bad("loop", name, in.Pos(), what+" in the order of a map")
	}
	h.Store = func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
		st, ok := in.(*ssa.Store)
		if !ok {
			return
		}
		for _, lc := range active(fr, in.Block()) {
			// the place of an element in a list made before the loop
			base := addr
			for {
				if base.op == OpFieldAddr {
					base = base.args[0]
					continue
				}
				break
			}
			if base.op == OpIndexAddr && !ownedBy(x, lc, base.args[0]) {
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					c.seqUses(stripSlice(ia.X))
					continue
				}
			}
			if base.op == OpIndexAddr {
				base = base.args[0]
			}
			if base.op == OpAlloc && !ownedBy(x, lc, base) {
				write(x, fr, in, lc, base, val, x.load(addr, st.Val.Type()), "a variable is set")
				continue
			}
			write(x, fr, in, lc, base, val, x.load(addr, st.Val.Type()), "memory is written")
		}
	}
	h.MapSet = func(x *Exec, fr *Frame, in ssa.Instruction, m, k, v *Term) {
		for _, lc := range active(fr, in.Block()) {
			if lc.rng != nil && x.find(k) == x.find(lc.rng.key) {
				acts[lc] = true
				continue
			}
			if ownedBy(x, lc, x.find(m)) {
				acts[lc] = true
				continue
			}
			if !ownedBy(x, lc, x.find(v)) && same(p.pos(in.Pos()), x.find(v)) {
				continue
			}
			write(x, fr, in, lc, m, v, nil, "entries of a map are set")
		}
	}
	h.Call = func(x *Exec, fr *Frame, in ssa.CallInstruction, cn string, g *ssa.Function, args []*Term) {
		for _, lc := range active(fr, in.Block()) {
			c.call(x, fr, in, lc, cn, g, args, name, ownedBy)
		}
	}
	h.Go = func(x *Exec, fr *Frame, in *ssa.Go, cn string, args []*Term) {
		for _, lc := range active(fr, in.Block()) {
			c.call(x, fr, in, lc, cn, in.Call.StaticCallee(), args, name, ownedBy)
		}
	}
	h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
		if x.quiet > 0 {
			return
		}
		var outer []*loopCtx
		if fr.fn == f && hs[lc.header] {
			outer = []*loopCtx{lc}
		} else {
			outer = active(fr, lc.header)
		}
		if len(outer) == 0 {
			return
		}
		for ph, v := range next {
			cur := x.find(lc.phi[ph])
			v := x.find(v)
			if v == cur {
				continue
			}
			for _, o := range outer {
				if o != lc && (fr != o.fr || !stemsFrom(o, ph)) {
					continue // of one iteration only
				}
				c.step(x, o, lc, ph, cur, v, name, unique, ownedBy, konst)
			}
		}
	}
	h.LoopLeave = func(x *Exec, fr *Frame, lc *loopCtx, byHeader bool) {
		if fr.fn == f && hs[lc.header] && !byHeader {
			x.event(Event{Kind: "early", Name: name, over: nil, Args: []*Term{lc.k}})
			c.left(x, fr, lc)
		}
	}
	x := newExec(p, h)
	x.run(f, x.params(f), func(fr *Frame, res *Term) {
		for i := range x.events {
			ev := &x.events[i]
			if ev.Kind != "early" {
				continue
			}
			lc := c.lcOf(ev.Args[0])
			if lc == nil {
				continue
			}
			if unique(x, lc) {
				continue
			}
			results := []*Term{}
			if res != nil {
				if res.op == OpTuple {
					results = res.args
				} else {
					results = append(results, res)
				}
			}
			failed := false
			for j, t := range results {
				rt := f.Signature.Results().At(j).Type()
				if isErrorType(rt) && x.truth(x.ts.Bin(token.EQL, t, x.ts.Nil(), false)) != yes && x.find(t).op != OpNil {
					failed = true
				}
			}
			if failed {
				continue
			}
			for _, t := range results {
				if ownedBy(x, lc, x.find(t)) || !x.find(t).isConst() && x.find(t).op != OpNil {
					c.bad("loop", name, lc.header.Instrs[0].Pos(), "the element found first in the order of a map is the result")
				} else if !same(name+" result", x.find(t)) {
					c.bad("loop", name, lc.header.Instrs[0].Pos(), "the order of a map decides between results")
				}
			}
			if acts[lc] {
				c.bad("loop", name, lc.header.Instrs[0].Pos(), "a loop over a map ends before all elements were treated")
			}
		}
	})
	c.r.done(x, name)
	for h := range hs {
		c.r.okob("loop", name, true, p.pos(h.Instrs[0].Pos()), "")
	}
}

// stemsFrom: the value of the inner phi stems from the outer loop's own.
func stemsFrom(o *loopCtx, ph *ssa.Phi) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		q, ok := v.(*ssa.Phi)
		if !ok || seen[v] {
			return false
		}
		seen[v] = true
		if q.Block() == o.header {
			return true
		}
		for _, e := range q.Edges {
			if visit(e) {
				return true
			}
		}
		return false
	}
	return visit(ph)
}

var orderLCs = map[*Term]*loopCtx{}

func (c *orderCheck) left(x *Exec, fr *Frame, lc *loopCtx) { orderLCs[lc.k] = lc }
func (c *orderCheck) lcOf(k *Term) *loopCtx                { return orderLCs[k] }

// iter: a term that belongs to one iteration of the loop.
func (c *orderCheck) iter(x *Exec, lc *loopCtx, u *Term) bool {
	if u == lc.k {
		return true
	}
	if lc.rng != nil && (u == lc.rng.key || u == lc.rng.val) {
		return true
	}
	if u.ser > lc.mark {
		switch u.op {
		case OpSym, OpAlloc, OpCall:
			return true
		}
	}
	return false
}

func isFloatTerm(t *Term) bool {
	if t.typ == nil {
		return false
	}
	b, ok := t.typ.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func stripSlice(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// step: what an iteration does to a value carried round the loop.
func (c *orderCheck) step(x *Exec, o, lc *loopCtx, ph *ssa.Phi, cur, v *Term, name string,
	unique func(*Exec, *loopCtx) bool, owned func(*Exec, *loopCtx, *Term) bool, konst map[string]*Term) {
	if unique(x, o) {
		c.r.okob("loop", name+" unique", true, "", "")
		return
	}
	t := ph.Type()
	if isErrorType(t) && v.op == OpNil {
		return
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if d := x.ts.Poly(v).add(x.ts.Poly(cur), -1); !polyHas(d, cur) {
			return // a sum
		}
		// the greatest or the least
		if x.truth(x.ts.Bin(token.LSS, cur, v, false)) == yes || x.truth(x.ts.Bin(token.LSS, v, cur, false)) == yes {
			return
		}
	}
	if isBool(t) {
		if k, ok := x.lits[cur]; ok && (v.isConst() || owned(x, o, v)) {
			_ = k
			return
		}
	}
	// inner loops start from what the outer one carries
	if v.op == OpSym && c.innerOf(o, lc, ph) {
		return
	}
	if v.op == OpAppend || isString(t) {
		if v.op == OpAppend && x.find(v.args[0]) == cur || v.op == OpBin && v.aux == "+" && x.find(v.args[0]) == cur || isString(t) && v.contains(func(u *Term) bool { return u == cur }) {
			c.seqUses(ph)
			return
		}
	}
	if (v.isConst() || v.op == OpNil || !owned(x, o, v)) && !v.contains(func(u *Term) bool { return u == cur }) {
		key := c.p.fname(ph.Parent()) + ph.Name()
		if k, ok := konst[key]; !ok || k == v {
			konst[key] = v
			return
		}
	}
	if !liveAfter(ph) {
		return
	}
	c.bad("loop", name, ph.Pos(), "what "+ph.Comment+" is depends on the order of a map")
}

// innerOf: the phi's value comes out of an inner loop whose own steps are judged.
func (c *orderCheck) innerOf(o, lc *loopCtx, ph *ssa.Phi) bool {
	if ph.Block() != lc.header {
		return false
	}
	for i, e := range ph.Edges {
		if !lc.blocks[ph.Block().Preds[i]] {
			continue
		}
		q, ok := e.(*ssa.Phi)
		if !ok || q == ph {
			continue
		}
		for h := range c.p.loopsOf(ph.Parent()) {
			if h != lc.header && lc.blocks[h] && q.Block() == h && stemsFrom(o, q) {
				return true
			}
		}
	}
	return false
}

func liveAfter(ph *ssa.Phi) bool {
	for _, u := range *ph.Referrers() {
		if _, ok := u.(*ssa.DebugRef); !ok {
			return true
		}
	}
	return false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (c *orderCheck) callers() map[*ssa.Function]map[*ssa.Function]bool {
	out := map[*ssa.Function]map[*ssa.Function]bool{}
	for _, g := range c.code() {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if q := ci.Common().StaticCallee(); q != nil {
						if out[q] == nil {
							out[q] = map[*ssa.Function]bool{}
						}
						out[q][g] = true
					}
				}
			}
		}
	}
	return out
}

func (c *orderCheck) recursive(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if seen[g] {
			return false
		}
		seen[g] = true
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok {
					if q := ci.Common().StaticCallee(); q != nil && c.p.inRepo(q) {
						if q == f || visit(q) {
							return true
						}
					}
				}
			}
		}
		return false
	}
	return visit(f)
}

func polyHas(p *Poly, t *Term) bool {
	for _, m := range p.m {
		for _, a := range m.atoms {
			if a.has(t) {
				return true
			}
		}
	}
	return false
}

// call: what a call in an unordered loop does must not meet what the calls of
// other iterations do.
func (c *orderCheck) call(x *Exec, fr *Frame, in ssa.CallInstruction, lc *loopCtx, cn string, g *ssa.Function, args []*Term, name string,
	owned func(*Exec, *loopCtx, *Term) bool) {
	p := c.p
	var fns []*ssa.Function
	cc := in.Common()
	switch {
	case cc.IsInvoke():
		fns = p.implementations(cc.Value.Type(), cc.Method)
	case g != nil:
		fns = []*ssa.Function{g}
	default:
		if _, ok := cc.Value.(*ssa.Builtin); ok {
			return
		}
		fns = p.funcValues(cc.Value.Type())
	}
	// captured is the value a closure that is called, or handed to the library,
	// has in a captured variable
	captured := func(q *ssa.Function, i int) *Term {
		v := cc.Value
		for j := -1; j < len(cc.Args); j++ {
			if j >= 0 {
				v = cc.Args[j]
			}
			mc, ok := v.(*ssa.MakeClosure)
			if !ok || mc.Fn != q || i >= len(mc.Bindings) {
				continue
			}
			t := x.find(x.val(fr, mc.Bindings[i]))
			if al, ok := mc.Bindings[i].(*ssa.Alloc); ok {
				t = x.find(x.load(t, al.Type().Underlying().(*types.Pointer).Elem()))
			}
			return t
		}
		return nil
	}
	for _, a := range cc.Args {
		if mc, ok := a.(*ssa.MakeClosure); ok && (g == nil || !p.inRepo(g)) {
			fns = append(fns, mc.Fn.(*ssa.Function))
		}
	}
	for _, q := range fns {
		if forHumans(q) || noReturn(cn) {
			continue
		}
		var ws []heapWrite
		if p.inRepo(q) {
			for _, w := range c.heap.writes(q) {
				ws = append(ws, w)
			}
		} else {
			c.libCall(x, in, lc, q, args, name, owned)
			continue
		}
		cross := c.crosses(q)
		for _, w := range ws {
			mine := false
			if i := w.root.param; i >= 0 && i < len(args) {
				a := args[i]
				for a.op == OpIface {
					a = a.args[0]
				}
				mine = owned(x, lc, x.find(a)) && x.find(a).op != OpIndexAddr
				if a.op == OpIndexAddr {
					mine = owned(x, lc, a.args[0])
				}
				if x.find(a).op == OpAlloc && !owned(x, lc, x.find(a)) {
					mine = false
				}
			}
			if w.root.param <= -2 {
				if t := captured(q, -2-w.root.param); t != nil {
					mine = owned(x, lc, t)
				}
			}
			ok := false
			switch {
			case w.kind == "sort":
				ok = true // a second sort changes nothing
			case w.kind == "io":
				ok = mine && !cross
			case mine && !cross:
				ok = true
			case mine && !c.readIn(fr.fn, lc, w.key):
				ok = true
			case c.restored(w):
				ok = true
			case replacedWhole(w):
				ok = true
			}
			if ok {
				c.r.okob("effect", name+" "+shortKey(w.key), true, "", "")
				continue
			}
			what := "may change " + shortKey(w.key) + " (" + p.pos(w.in.Pos()) + ")"
			if w.kind == "io" {
				what = "writes output (" + p.pos(w.in.Pos()) + ")"
			}
			c.bad("effect", name+" "+shortKey(w.key), in.Pos(), what+" in the order of a map")
		}
	}
}

func shortKey(k string) string {
	if i := strings.LastIndexByte(k, '/'); i >= 0 {
		return k[i+1:]
	}
	return k
}

// libCall: a library function that takes output.
func (c *orderCheck) libCall(x *Exec, in ssa.CallInstruction, lc *loopCtx, q *ssa.Function, args []*Term, name string, owned func(*Exec, *loopCtx, *Term) bool) {
	h := newHeap(c.p)
	h.sums[in.Parent()] = map[string]heapWrite{}
	cc := in.Common()
	vals := cc.Args
	if cc.IsInvoke() {
		vals = append([]ssa.Value{cc.Value}, cc.Args...)
	}
	bad := false
	put := func(base ssa.Value, key, kind string, _ ssa.Instruction, _ ssa.Value) {
		if kind != "io" {
			return
		}
		for i, v := range vals {
			if v != base || i >= len(args) {
				continue
			}
			a := args[i]
			for a.op == OpIface {
				a = a.args[0]
			}
			if owned(x, lc, x.find(a)) {
				return
			}
		}
		if al := allocOf(base); al != nil {
			// a text that is built: what it is used for decides
			for _, u := range *al.Referrers() {
				if call, ok := u.(*ssa.Call); ok && call.Call.StaticCallee() != nil {
					switch call.Call.StaticCallee().Name() {
					case "String", "Bytes", "Sum", "Sum32", "Sum64":
						c.seqUses(call)
					}
				}
			}
			return
		}
		bad = true
	}
	h.libWrites(q, vals, in, put)
	if bad || len(h.sums[in.Parent()]) > 0 {
		c.bad("effect", name+" output", in.Pos(), "writes output in the order of a map")
	}
}

func allocOf(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

// crosses tells that f, or what it calls, goes from one package to another.
func (c *orderCheck) crosses(f *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(g *ssa.Function) bool
	visit = func(g *ssa.Function) bool {
		if g == nil || seen[g] || !c.p.inRepo(g) {
			return false
		}
		seen[g] = true
		e := newEffects()
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if fieldNamed(deref(in.X.Type()), in.Field, "prs.Import:Pkg") {
						for _, u := range *in.Referrers() {
							if l, ok := u.(*ssa.UnOp); ok && l.Op == token.MUL {
								return true
							}
						}
					}
				case *ssa.Field:
					if fieldNamed(in.X.Type(), in.Field, "prs.Import:Pkg") {
						return true
					}
				}
			}
			for _, q := range c.p.ownEffects(b, e) {
				if visit(q) {
					return true
				}
			}
		}
		return false
	}
	return visit(f)
}

func fieldNamed(t types.Type, i int, suffix string) bool {
	return strings.HasSuffix(fieldKey(t, i), suffix)
}

// readIn: something in the loop looks at the field the key names. Copies of whole
// objects do not count, what is done with the copy does.
func (c *orderCheck) readIn(f *ssa.Function, lc *loopCtx, key string) bool {
	k := strings.TrimSuffix(key, "[]")
	if !strings.HasPrefix(k, "f:") {
		return true
	}
	seen := map[*ssa.Function]bool{}
	e := newEffects()
	var block func(b *ssa.BasicBlock) bool
	block = func(b *ssa.BasicBlock) bool {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.FieldAddr:
				if fieldKey(deref(in.X.Type()), in.Field) != k {
					continue
				}
				for _, u := range *in.Referrers() {
					if st, ok := u.(*ssa.Store); !ok || st.Addr != in {
						return true
					}
				}
			case *ssa.Field:
				if fieldKey(in.X.Type(), in.Field) == k {
					return true
				}
			}
		}
		for _, q := range c.p.ownEffects(b, e) {
			if q == nil || seen[q] || !c.p.inRepo(q) {
				continue
			}
			seen[q] = true
			for _, b := range q.Blocks {
				if block(b) {
					return true
				}
			}
		}
		return false
	}
	for b := range lc.blocks {
		if block(b) {
			return true
		}
	}
	return false
}

// restored: the function that sets the mark takes it away again. How it does so
// is the subject of C23.
func (c *orderCheck) restored(w heapWrite) bool {
	f := w.in.Parent()
	for f.Parent() != nil {
		f = f.Parent()
	}
	set, reset, ok := c.marks(f, w.key)
	if !ok {
		return false
	}
	if set && reset {
		return true
	}
	// The mark may be set in one function and taken away in another: whoever
	// calls the one calls, or defers, the other.
	callers := 0
	for _, g := range c.p.funcs {
		around := c.p.callees(g)
		if !slices.Contains(around, f) {
			continue
		}
		callers++
		set, reset := set, reset
		for _, o := range append(around, g) {
			s, r, ok := c.marks(o, w.key)
			if !ok {
				return false
			}
			set, reset = set || s, reset || r
		}
		if !set || !reset {
			return false
		}
	}
	return callers > 0
}

// marks tells whether f, or a function inside it, sets and takes away the mark;
// not ok if it stores something else there.
func (c *orderCheck) marks(f *ssa.Function, key string) (set, reset, ok bool) {
	for _, g := range append([]*ssa.Function{f}, f.AnonFuncs...) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.Store:
					ks := map[string]bool{}
					c.p.addrKeys(in.Addr, ks)
					if !ks[key] {
						continue
					}
					k, is := in.Val.(*ssa.Const)
					if !is || k.Value == nil || k.Value.Kind() != constant.Bool && k.Value.Kind() != constant.Int {
						return false, false, false
					}
					if k.Value.Kind() == constant.Bool && constant.BoolVal(k.Value) ||
						k.Value.Kind() == constant.Int && constant.Sign(k.Value) != 0 {
						set = true
					} else {
						reset = true
					}
				case *ssa.MapUpdate:
					if mapKey(in.Map) == key {
						if _, is := in.Value.(*ssa.Const); !is {
							if st, is := in.Value.Type().Underlying().(*types.Struct); !is || st.NumFields() > 0 {
								return false, false, false
							}
						}
						set = true
					}
				case ssa.CallInstruction:
					if bi, is := in.Common().Value.(*ssa.Builtin); is && bi.Name() == "delete" && mapKey(in.Common().Args[0]) == key {
						reset = true
					}
				}
			}
		}
	}
	return set, reset, true
}

// replacedWhole: a map is replaced by one made here, and filled here.
func replacedWhole(w heapWrite) bool {
	f := w.in.Parent()
	key := strings.TrimSuffix(w.key, "[]")
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			st, ok := in.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldKey(deref(fa.X.Type()), fa.Field) != key {
				continue
			}
			if !madeHere(st.Val) {
				return false
			}
			if st == w.in || before(st, w.in) {
				return true
			}
		}
	}
	return false
}

func madeHere(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.MakeMap:
		return true
	case *ssa.ChangeType:
		return madeHere(x.X)
	}
	return false
}

// goroutine: several goroutines of the same code must not write to the same
// memory, not even one after the other.
func (c *orderCheck) goroutine(f *ssa.Function, pos token.Pos, mc *ssa.MakeClosure, args []ssa.Value, g *ssa.Function) {
	where := c.p.fname(f) + " go " + c.p.fname(g)
	ok := true
	cross := c.crosses(g)
	for _, w := range c.heap.writes(g) {
		switch {
		case w.root.global != nil || w.root.other || cross:
			ok = false
		case w.root.param >= 0:
			ok = ok && w.root.param < len(args) && iterates(args[w.root.param])
		default:
			i := -2 - w.root.param
			ok = ok && mc != nil && i < len(mc.Bindings) && (iterates(mc.Bindings[i]) || freshPerRound(f, mc.Bindings[i], c.p))
		}
		if !ok {
			c.bad("goroutines", where, pos, "goroutines change "+shortKey(w.key)+" in the order of scheduling ("+c.p.pos(w.in.Pos())+")")
			return
		}
	}
	c.r.ob("goroutines", where, true, c.p.pos(pos), "")
}

// freshPerRound: the variable is made in the loop, and set from the iteration.
func freshPerRound(f *ssa.Function, v ssa.Value, p *Prog) bool {
	a, ok := v.(*ssa.Alloc)
	if !ok {
		return false
	}
	for _, body := range p.loopsOf(f) {
		if !body[a.Block()] {
			continue
		}
		for _, u := range *a.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == a && !iterates(st.Val) {
				return false
			}
		}
		return true
	}
	return false
}

// iterates: the value stems from the variable of a loop.
func iterates(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Next:
			return true
		case *ssa.Phi:
			return true
		case *ssa.Alloc, *ssa.Call, *ssa.Parameter, *ssa.Global, *ssa.Const:
			return false
		case ssa.Instruction:
			for _, o := range x.Operands(nil) {
				if *o != nil && visit(*o) {
					return true
				}
			}
		}
		return false
	}
	return visit(v)
}
