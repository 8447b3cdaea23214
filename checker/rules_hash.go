package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { checks["C10"] = checkC10 }

const (
	pkgFn    = "pkg/fbdl/fn"
	pkgTypes = "pkg/fbdl/types"
	pkgHash  = "internal/util/hash"
	pkgReg   = "internal/reg"
)

// wrote is one value handed to the object a hash is computed from.
type wrote struct {
	callee string
	arg    *Term
}

// hashWalk checks that the hash of one type of value depends on all of it.
type hashWalk struct {
	p     *Prog
	r     *Report
	x     *Exec
	root  *ssa.Function
	T     types.Type
	obj   *Term
	allOf map[*Term]*Term          // slice holding all keys of a map
	full  map[*Term]map[*Term]bool // per loop: collections written in every iteration
	seen  map[*loopCtx]bool
	loops map[*loopCtx]map[string]*covered
	done  []*covered // on the current path
}

type covered struct {
	coll  *Term
	keyed bool
}

func isHashFn(f *ssa.Function) bool {
	pk := pkgOf(f)
	if pk == nil || !strings.HasSuffix(pk.Path(), pkgHash) {
		return false
	}
	rs := f.Signature.Results()
	if rs.Len() != 1 || f.Signature.Params().Len() != 1 {
		return false
	}
	b, ok := rs.At(0).Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// peel strips what does not lose information.
func peel(t *Term) *Term {
	for {
		switch {
		case t.op == OpIface:
			t = t.args[0]
		case t.op == OpConv && (t.aux == "string" || strings.HasPrefix(t.aux, "[]")):
			t = t.args[0]
		case t.op == OpCall && (strings.HasPrefix(t.aux, "strconv.Format") || t.aux == "strconv.Itoa" || t.aux == "strconv.Quote"):
			t = t.args[0]
		default:
			return t
		}
	}
}

func (h *hashWalk) writes(from int) []wrote {
	var out []wrote
	for _, e := range h.x.events[from:] {
		if e.Kind != "call" {
			continue
		}
		if strings.Contains(e.Name, pkgHash+".") && !strings.HasPrefix(e.Name, "(") {
			continue // followed or nested hash call
		}
		for _, a := range e.Args {
			for _, el := range h.spread(a) {
				out = append(out, wrote{e.Name, el})
			}
		}
	}
	return out
}

func (h *hashWalk) spread(a *Term) []*Term {
	a = h.x.find(a)
	if el, ok := h.x.varargs(a); ok {
		return el
	}
	return []*Term{a}
}

// carried tells if v is handed over as a whole by w.
func (h *hashWalk) carried(w wrote, v *Term, T types.Type) bool {
	a := h.x.find(peel(h.x.find(w.arg)))
	// a nested hash
	if a.op == OpCall && len(a.args) == 1 && strings.Contains(a.aux, pkgHash+".") {
		in := h.x.find(peel(a.args[0]))
		if in == v || h.isStructOf(in, v, T) {
			return true
		}
		// address of a structure
		if in.op == OpFieldAddr && h.x.load(in, T) == v {
			return true
		}
		return false
	}
	if _, ok := T.Underlying().(*types.Pointer); ok {
		if a == v {
			return strings.HasPrefix(w.callee, "encoding/binary.")
		}
		return false
	}
	return a == v || h.isStructOf(a, v, T)
}

func (h *hashWalk) isStructOf(a, v *Term, T types.Type) bool {
	if a == v {
		return true
	}
	st, ok := T.Underlying().(*types.Struct)
	if !ok || a.op != OpStruct || len(a.args) != st.NumFields() {
		return false
	}
	for i := range a.args {
		if h.x.find(a.args[i]) != h.x.find(h.x.Field(v, T, i)) {
			return false
		}
	}
	return true
}

// covers tells if the value v of type T went into the hash on the current path.
// missing names what did not.
func (h *hashWalk) covers(v *Term, T types.Type, ws []wrote, name string, depth int) (missing []string) {
	v = h.x.find(v)
	for _, w := range ws {
		if h.carried(w, v, T) {
			return nil
		}
	}
	if depth > 6 {
		return []string{name}
	}
	switch u := T.Underlying().(type) {
	case *types.Pointer:
		if v.op == OpNil || h.x.eq(v, h.x.ts.Nil()) == yes {
			return nil
		}
		return h.covers(h.x.load(v, u.Elem()), u.Elem(), ws, name, depth+1)
	case *types.Interface:
		if v.op == OpNil || h.x.eq(v, h.x.ts.Nil()) == yes {
			return nil
		}
	case *types.Struct:
		if !h.inModule(T) {
			return []string{name}
		}
		for i := 0; i < u.NumFields(); i++ {
			n := u.Field(i).Name()
			missing = append(missing, h.covers(h.x.Field(v, T, i), u.Field(i).Type(), ws, name+"."+n, depth+1)...)
		}
		return missing
	case *types.Slice, *types.Map:
		for _, c := range h.done {
			if h.x.find(c.coll) == v {
				return nil
			}
		}
		if h.x.eq(h.x.length(v), h.x.ts.Int(0)) == yes {
			return nil
		}
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 && h.x.truth(v) != unknown {
			return []string{"?" + name}
		}
	}
	return []string{name}
}

func (h *hashWalk) inModule(T types.Type) bool {
	n, ok := types.Unalias(T).(*types.Named)
	return !ok || n.Obj().Pkg() == nil || strings.HasPrefix(n.Obj().Pkg().Path(), h.p.mod)
}

// back looks at one iteration of a loop: which collections went into the hash.
func (h *hashWalk) back(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
	ws := h.writes(lc.evMark)
	found := map[string]*covered{}
	add := func(coll *Term, keyed bool) {
		found[fmt.Sprint(coll.id)] = &covered{coll, keyed}
	}
	// keys collected from a map
	if lc.rng != nil {
		for p, v := range lc.phi {
			n := x.find(next[p])
			if n.op == OpAppend && n.aux == "" && len(n.args) == 2 && n.args[0] == v && x.find(n.args[1]) == x.find(lc.rng.key) {
				if h.allOf[v] == nil {
					h.allOf[v] = lc.rng.coll
				}
			}
		}
		k, v := false, false
		for _, w := range ws {
			a := x.find(peel(x.find(w.arg)))
			k = k || a == x.find(lc.rng.key)
			v = v || a == x.find(lc.rng.val)
		}
		if k && v {
			add(lc.rng.coll, true)
		}
	}
	// elements of slices
	cand := map[*Term]bool{}
	look := func(t *Term) {
		t.contains(func(s *Term) bool {
			if s.op == OpIndexAddr && s.args[1].has(lc.k) {
				cand[s] = true
			}
			return false
		})
	}
	for _, w := range ws {
		look(w.arg)
	}
	for _, c := range h.done {
		look(c.coll)
	}
	for ia := range cand {
		s, idx := ia.args[0], x.ts.Poly(ia.args[1])
		n := x.ts.Poly(x.length(s))
		up := x.samePoly(idx, polyAtom(lc.k))
		down := x.samePoly(idx, n.add(polyAtom(lc.k), -1).add(polyConst(1), -1))
		if !up && !down {
			continue
		}
		et := h.elemType(lc, ia)
		if et == nil {
			continue
		}
		e := x.loadElem(s, ia.args[1], et)
		if len(h.covers(e, et, ws, "element", 0)) == 0 {
			add(s, false)
		}
		// a list of keys: the entry of the map must go in as well
		if m := h.mapOf(s); m != nil {
			val := false
			var look func(t *Term) bool
			look = func(t *Term) bool {
				return t.contains(func(q *Term) bool { return q.op == OpLookup && q.args[0] == m && x.find(q.args[1]) == x.find(e) })
			}
			for _, w := range ws {
				val = val || peel(x.find(w.arg)).op == OpLookup && look(peel(x.find(w.arg)))
			}
			for _, c := range h.done {
				val = val || look(c.coll)
			}
			if val && found[fmt.Sprint(s.id)] != nil {
				add(m, true)
			}
		}
	}
	prev, ok := h.loops[lc]
	if !ok {
		h.loops[lc] = found
		return
	}
	for k := range prev {
		if found[k] == nil {
			delete(prev, k)
		}
	}
}

// mapOf tells which map s holds all the keys of.
func (h *hashWalk) mapOf(s *Term) *Term {
	if m := h.allOf[s]; m != nil {
		return h.x.find(m)
	}
	var m *Term
	s.contains(func(t *Term) bool {
		if t.op == OpCall && strings.Contains(t.aux, "maps.Keys") && len(t.args) == 1 {
			m = h.x.find(t.args[0])
			return true
		}
		return false
	})
	return m
}

func (h *hashWalk) elemType(lc *loopCtx, ia *Term) types.Type {
	for _, b := range lc.fr.fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(*ssa.IndexAddr); ok && lc.fr.env[v] == ia {
				return deref(v.Type())
			}
			if v, ok := in.(*ssa.Index); ok && lc.fr.env[v] == ia {
				return v.Type()
			}
		}
	}
	return nil
}

func (h *hashWalk) exit(x *Exec, fr *Frame, lc *loopCtx) {
	f, ok := h.loops[lc]
	if !ok {
		// no iteration comes back: the collection is empty on this path
		return
	}
	n := len(h.done)
	keys := make([]string, 0, len(f))
	for k := range f {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		c := f[k]
		if !c.keyed || lc.rng != nil && lc.rng.coll == c.coll {
			// the loop ended because the collection did
			if lc.rng == nil && !x.provesLE0(x.ts.Poly(x.length(c.coll)).add(polyAtom(lc.k), -1)) {
				continue
			}
		}
		h.done = append(h.done, c)
	}
	x.trail = append(x.trail, func() { h.done = h.done[:n] })
}

func (h *hashWalk) run() {
	x := h.x
	p := h.p
	name := shortType(h.T)
	x.h = Hooks{
		OpaqueCall: func(x *Exec, f *ssa.Function, args []*Term) bool {
			if !p.inRepo(f) {
				return true
			}
			if !isHashFn(f) {
				return false
			}
			for _, a := range args {
				if x.find(peel(x.find(a))) == h.obj || peel(a) == h.obj || h.isStructOf(x.find(peel(a)), h.obj, h.T) {
					return false
				}
			}
			return true
		},
		BackEdge: h.back,
		LoopExit: h.exit,
		Panic: func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
			if fr.caller == nil {
				h.r.bad("hash-dispatch", name, p.pos(in.Pos()), "hashing a value of type %s ends in a panic", name)
			}
		},
	}
	h.loops = map[*loopCtx]map[string]*covered{}
	h.allOf = map[*Term]*Term{}
	type pathRec struct {
		lits map[*Term]bool
		bool string
		val  bool
		seq  string
	}
	var open []pathRec
	nret := 0
	x.run(h.root, []*Term{x.ts.mk(OpIface, "", h.T, h.obj)}, func(fr *Frame, res *Term) {
		nret++
		// what the result depends on
		var ws []wrote
		seq := []string{}
		for _, e := range x.events {
			if e.Kind != "call" || strings.Contains(e.Name, pkgHash+".") {
				continue
			}
			into := false
			for _, a := range e.Args {
				o := x.find(peel(x.find(a)))
				if o.op == OpAlloc && res.has(o) {
					into = true
				} else if o.op == OpCall && o.ser != 0 && res.has(o) {
					into = true
				}
			}
			if !into {
				continue
			}
			for _, a := range e.Args {
				for _, el := range h.spread(a) {
					ws = append(ws, wrote{e.Name, el})
					seq = append(seq, el.String())
				}
			}
		}
		// direct results
		x.find(res).contains(func(t *Term) bool {
			ws = append(ws, wrote{"result", t})
			return false
		})
		T := h.T
		v := h.obj
		if pt, ok := T.Underlying().(*types.Pointer); ok {
			T = pt.Elem()
			v = x.load(h.obj, T)
		}
		fields := map[string]types.Type{}
		if st, ok := T.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				fn := st.Field(i).Name()
				ft := st.Field(i).Type()
				fields[fn] = ft
				f := h.fieldOf(v, T, i)
				miss := h.covers(f, ft, ws, fn, 0)
				var real []string
				for _, m := range miss {
					if strings.HasPrefix(m, "?") {
						val := x.truth(h.pathTerm(v, T, m[1:])) == yes
						lits := map[*Term]bool{}
						for l, b := range x.lits {
							lits[l] = b
						}
						open = append(open, pathRec{lits: lits, bool: m[1:], val: val, seq: strings.Join(seq, ";")})
						continue
					}
					real = append(real, m)
				}
				h.r.ob("hash-covers", name+"."+fn, len(real) == 0, p.pos(h.root.Pos()), "there is a path on which %s of %s does not go into the hash", strings.Join(real, ", "), name)
			}
		} else {
			miss := h.covers(v, T, ws, "value", 0)
			h.r.ob("hash-covers", name, len(miss) == 0, p.pos(h.root.Pos()), "there is a path on which a value of type %s does not go into the hash as a whole", name)
		}
	})
	// booleans that are only branched on must lead to different input
	for _, a := range open {
		for _, b := range open {
			if a.bool == b.bool && a.val && !b.val {
				h.r.ob("hash-covers", name+"."+a.bool, a.seq != b.seq, p.pos(h.root.Pos()), "%s of %s does not change what is hashed", a.bool, name)
			}
		}
	}
	h.r.ob("hash-dispatch", name, nret > 0, p.pos(h.root.Pos()), "no value of type %s can be hashed", name)
	h.r.done(x, "hash of "+name)
}

func (h *hashWalk) fieldOf(v *Term, T types.Type, i int) *Term { return h.x.Field(v, T, i) }

func (h *hashWalk) pathTerm(v *Term, T types.Type, path string) *Term {
	for _, n := range strings.Split(path, ".") {
		st := T.Underlying().(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				v = h.x.Field(v, T, i)
				T = st.Field(i).Type()
				break
			}
		}
	}
	return v
}

// hashRoot finds the function that hashes a value of any type.
func hashRoot(p *Prog) *ssa.Function {
	var out *ssa.Function
	for _, f := range p.funcs {
		if f.Parent() == nil && isHashFn(f) && types.IsInterface(f.Signature.Params().At(0).Type()) {
			if it, ok := f.Signature.Params().At(0).Type().Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
				if out != nil {
					return nil
				}
				out = f
			}
		}
	}
	return out
}

// hashTypes lists the types of values reachable from a block that need a hash of their own.
func hashTypes(p *Prog) []types.Type {
	blk := p.named(pkgFn, "Block")
	if blk == nil {
		return nil
	}
	seen := map[string]bool{}
	var out []types.Type
	add := func(t types.Type) bool {
		k := types.TypeString(t, nil)
		if seen[k] {
			return false
		}
		seen[k] = true
		out = append(out, t)
		return true
	}
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch u := t.(type) {
		case *types.Pointer:
			if n, ok := u.Elem().(*types.Named); ok && isStruct(n) && p.inMod(n) {
				if n.Obj().Pkg().Name() == "fn" && !add(t) {
					return
				}
				visitFields(n, visit)
			}
		case *types.Slice:
			visit(u.Elem())
		case *types.Map:
			visit(u.Elem())
		case *types.Named:
			if !p.inMod(u) {
				return
			}
			switch w := u.Underlying().(type) {
			case *types.Struct:
				if u.Obj().Pkg().Name() == "fn" || strings.HasSuffix(u.Obj().Name(), "Container") {
					if !add(types.NewPointer(u)) {
						return
					}
				} else if !strings.HasSuffix(u.Obj().Name(), "Time") && !add(u) {
					return
				}
				visitFields(u, visit)
			case *types.Interface:
				var ks []string
				fl := p.flows()[types.TypeString(u, nil)]
				for k := range fl {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if add(fl[k]) {
						visit(fl[k].Underlying())
					}
				}
			default:
				_ = w
			}
		}
	}
	visit(types.NewPointer(blk))
	return out
}

func visitFields(n *types.Named, visit func(types.Type)) {
	st := n.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		visit(st.Field(i).Type())
	}
}

func (p *Prog) inMod(n *types.Named) bool {
	return n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.mod)
}

func checkC10(p *Prog, r *Report) {
	r.explain = "for every type of value reachable from a block, every path of its hash function is walked and every attribute must be handed to the object the result is computed from; the place where the identifier is made is walked for its name, address, width, value and order"
	root := hashRoot(p)
	if root == nil {
		r.missing("the hash function of package " + pkgHash)
		return
	}
	ts := hashTypes(p)
	for _, T := range ts {
		x := newExec(p, Hooks{})
		h := &hashWalk{p: p, r: r, x: x, root: root, T: T}
		h.obj = x.ts.mk(OpParam, "value", nil)
		h.run()
	}
	r.floor("hash-covers", 90)
	r.floor("hash-dispatch", 17)
	checkID(p, r)
}
