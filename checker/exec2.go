package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// pureExternals are library functions whose result depends on the arguments only.
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "math": true, "unicode": true, "unicode/utf8": true, "path": true,
	"path/filepath": true, "bytes": true, "errors": true, "math/bits": true, "math/big": true,
	"hash/adler32": true, "encoding/binary": true,
}

func pureExternal(f *ssa.Function) bool {
	pk := pkgOf(f)
	if pk == nil {
		return false
	}
	if purePkgs[pk.Path()] {
		return true
	}
	if pk.Path() == "fmt" {
		switch f.Name() {
		case "Sprintf", "Sprint", "Sprintln", "Errorf":
			return true
		}
	}
	return false
}

func noReturn(name string) bool {
	switch name {
	case "os.Exit", "log.Fatal", "log.Fatalf", "log.Fatalln", "log.Panic", "log.Panicf", "log.Panicln", "runtime.Goexit":
		return true
	}
	return false
}

func (x *Exec) instrs(fr *Frame, b *ssa.BasicBlock, i int) {
	for ; i < len(b.Instrs); i++ {
		if x.stop {
			return
		}
		x.steps++
		if x.steps > x.maxSteps {
			x.giveUp("step limit reached in %s", x.p.fname(fr.fn))
			return
		}
		if x.steps&0xfff == 0 && time.Now().After(x.deadline) {
			x.giveUp("time limit reached in %s", x.p.fname(fr.fn))
			return
		}
		switch in := b.Instrs[i].(type) {
		case *ssa.DebugRef:
		case *ssa.Alloc:
			t := x.ts.fresh(OpAlloc, in.Comment, deref(in.Type()))
			x.site[t] = allocKey(in)
			x.store(t, x.zero(deref(in.Type())), deref(in.Type()))
			x.set(fr, in, t)
		case *ssa.BinOp:
			if (in.Op == token.QUO || in.Op == token.REM) && isInteger(in.X.Type()) && x.h.Div != nil && x.quiet == 0 {
				x.h.Div(x, fr, in, x.val(fr, in.X), x.val(fr, in.Y))
			}
			x.set(fr, in, x.binop(fr, in))
		case *ssa.UnOp:
			switch in.Op {
			case token.MUL:
				a := x.addrOf(fr, in.X)
				var v *Term
				if a.op == OpIndexAddr {
					v = x.loadElem(a.args[0], a.args[1], in.Type())
				} else {
					v = x.load(a, in.Type())
				}
				if x.h.Load != nil && x.quiet == 0 {
					x.h.Load(x, fr, in, a, v)
				}
				x.set(fr, in, v)
			case token.NOT:
				x.set(fr, in, x.ts.Not(x.val(fr, in.X)))
			case token.SUB:
				v := x.val(fr, in.X)
				if c, ok := x.find(v).intVal(); ok {
					x.set(fr, in, x.ts.Int(-c))
				} else {
					x.set(fr, in, x.ts.mk(OpNeg, "", nil, v))
				}
			default:
				x.set(fr, in, x.ts.mk(OpCall, "unop "+in.Op.String(), nil, x.val(fr, in.X)))
			}
		case *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.MultiConvert:
			v := in.(ssa.Value)
			var src ssa.Value
			switch c := in.(type) {
			case *ssa.Convert:
				src = c.X
			case *ssa.ChangeType:
				src = c.X
			case *ssa.ChangeInterface:
				src = c.X
			case *ssa.MultiConvert:
				src = c.X
			}
			x.set(fr, v, x.convert(x.val(fr, src), src.Type(), v.Type()))
		case *ssa.MakeInterface:
			x.set(fr, in, x.ts.mk(OpIface, "", in.X.Type(), x.val(fr, in.X)))
		case *ssa.FieldAddr:
			x.set(fr, in, x.fieldAddr(fr, in))
		case *ssa.Field:
			x.set(fr, in, x.Field(x.find(x.val(fr, in.X)), in.X.Type(), in.Field))
		case *ssa.IndexAddr:
			x.set(fr, in, x.IndexAddr(x.val(fr, in.X), x.val(fr, in.Index)))
		case *ssa.Index:
			x.set(fr, in, x.index(x.find(x.val(fr, in.X)), x.find(x.val(fr, in.Index)), in.X.Type(), in.Type()))
		case *ssa.Extract:
			x.set(fr, in, x.extract(x.val(fr, in.Tuple), in.Index))
		case *ssa.Slice:
			lo, hi := x.ts.Int(0), x.ts.Nil()
			if in.Low != nil {
				lo = x.find(x.val(fr, in.Low))
			}
			if in.High != nil {
				hi = x.find(x.val(fr, in.High))
			}
			s := x.find(x.val(fr, in.X))
			if str, ok := s.strVal(); ok {
				l, ok1 := lo.intVal()
				h, ok2 := hi.intVal()
				if hi.op == OpNil {
					h, ok2 = int64(len(str)), true
				}
				if ok1 && ok2 && 0 <= l && l <= h && h <= int64(len(str)) {
					x.set(fr, in, x.ts.Str(str[l:h]))
					continue
				}
			}
			if l, ok := lo.intVal(); ok && l == 0 && hi.op == OpNil && s.op != OpAlloc {
				x.set(fr, in, s)
				continue
			}
			x.set(fr, in, x.ts.mk(OpSlice, "", nil, s, lo, hi))
		case *ssa.MakeSlice:
			t := x.ts.fresh(OpAlloc, "make", in.Type())
			x.site[t] = "a:make:" + fmt.Sprint(in.Pos())
			x.set(fr, in, x.ts.mk(OpSlice, "make", nil, t, x.ts.Int(0), x.val(fr, in.Len)))
		case *ssa.MakeMap:
			t := x.ts.fresh(OpMap, "map", in.Type())
			setM(x, x.closed, t, []*Term{})
			x.set(fr, in, t)
		case *ssa.MakeChan:
			x.set(fr, in, x.ts.fresh(OpAlloc, "chan", in.Type()))
		case *ssa.MakeClosure:
			var as []*Term
			for _, bv := range in.Bindings {
				as = append(as, x.val(fr, bv))
			}
			t := x.ts.mk(OpClosure, in.Fn.String(), nil, as...)
			t.fn = in.Fn.(*ssa.Function)
			x.set(fr, in, t)
		case *ssa.MapUpdate:
			x.mapSet(fr, in)
		case *ssa.Lookup:
			x.lookup(fr, in, func(v *Term) {
				x.set(fr, in, v)
				x.instrs(fr, b, i+1)
			})
			return
		case *ssa.TypeAssert:
			v := x.find(x.val(fr, in.X))
			res := v
			if !types.IsInterface(in.AssertedType) {
				if v.op == OpIface && types.Identical(v.typ, in.AssertedType) {
					res = v.args[0]
				} else {
					res = x.ts.mk(OpAssert, "", in.AssertedType, v)
				}
			}
			ok := x.ts.mk(OpAssertOk, "", in.AssertedType, v)
			if in.CommaOk {
				okt := ok
				switch x.truth(ok) {
				case yes:
					okt = x.ts.Bool(true)
				case no:
					okt = x.ts.Bool(false)
				}
				x.set(fr, in, x.ts.mk(OpTuple, "", nil, res, okt))
				continue
			}
			if x.truth(ok) != yes {
				if x.h.Assert != nil && x.quiet == 0 {
					x.h.Assert(x, fr, in, v)
				}
				if !x.assume(ok, true) {
					return
				}
			}
			x.set(fr, in, res)
		case *ssa.Range:
			m := x.find(x.val(fr, in.X))
			x.event(Event{Kind: "range", Name: types.TypeString(in.X.Type(), nil), Fn: fr.fn, Pos: in.Pos(), Args: []*Term{m}})
			it := x.ts.fresh(OpCall, "range", in.X.Type(), m)
			x.set(fr, in, it)
		case *ssa.Next:
			it := x.val(fr, in.Iter)
			ok := x.ts.fresh(OpSym, "more", nil)
			k := x.ts.fresh(OpSym, "key", nil)
			var v *Term
			if in.IsString {
				v = x.ts.fresh(OpSym, "rune", nil)
			} else {
				m := it
				if len(it.args) > 0 {
					m = it.args[0]
				}
				tt := in.Type().(*types.Tuple)
				v = x.mapGet(m, k, tt.At(2).Type())
				if n := len(fr.loops); n > 0 {
					fr.loops[n-1].rng = &rangeInfo{coll: m, ok: ok, key: k, val: v}
				}
			}
			x.set(fr, in, x.ts.mk(OpTuple, "", nil, ok, k, v))
		case *ssa.Store:
			a := x.addrOf(fr, in.Addr)
			v := x.val(fr, in.Val)
			if x.h.Store != nil && x.quiet == 0 {
				x.h.Store(x, fr, in, a, v)
			}
			x.store(a, v, in.Val.Type())
		case *ssa.Send, *ssa.Select:
			if v, ok := in.(ssa.Value); ok {
				x.set(fr, v, x.ts.fresh(OpSym, "select", nil))
			}
		case *ssa.Go:
			x.goCall(fr, in)
		case *ssa.Defer:
			d := x.resolveCall(fr, &in.Call)
			df := deferred{in: in, name: d.name, fn: d.fn, clo: d.clo, args: d.args}
			if x.h.Deferred != nil {
				x.h.Deferred(x, fr, in, df)
			}
			old := fr.defers
			fr.defers = append(append([]deferred{}, old...), df)
			x.trail = append(x.trail, func() { fr.defers = old })
		case *ssa.RunDefers:
			ds := fr.defers
			x.runDefers(fr, ds, func() { x.instrs(fr, b, i+1) })
			return
		case *ssa.Call:
			done := x.doCall(fr, in, func(res *Term) {
				x.set(fr, in, res)
				x.instrs(fr, b, i+1)
			})
			if done != nil {
				x.set(fr, in, done)
				continue
			}
			return
		case *ssa.If:
			x.doIf(fr, b, in)
			return
		case *ssa.Jump:
			x.block(fr, b.Succs[0], b)
			return
		case *ssa.Return:
			for _, lc := range fr.loops {
				if lc.probe || lc.last && !lc.onlyExit {
					return
				}
			}
			x.paths++
			var res *Term
			switch len(in.Results) {
			case 0:
				res = x.ts.Nil()
			case 1:
				res = x.val(fr, in.Results[0])
			default:
				var as []*Term
				for _, r := range in.Results {
					as = append(as, x.val(fr, r))
				}
				res = x.ts.mk(OpTuple, "", nil, as...)
			}
			x.leave(fr, res)
			return
		case *ssa.Panic:
			x.paths++
			if x.h.Panic != nil && x.quiet == 0 {
				x.h.Panic(x, fr, in, x.val(fr, in.X).String())
			}
			return
		default:
			if v, ok := in.(ssa.Value); ok {
				x.set(fr, v, x.ts.fresh(OpSym, fmt.Sprintf("%T", in), nil))
			}
		}
	}
}

func (x *Exec) doIf(fr *Frame, b *ssa.BasicBlock, in *ssa.If) {
	c := x.val(fr, in.Cond)
	if x.h.Branch != nil && x.quiet == 0 {
		x.h.Branch(x, fr, in, c)
	}
	if n := len(fr.loops); n > 0 && fr.loops[n-1].header == b {
		lc := fr.loops[n-1]
		inT := lc.blocks[b.Succs[0]]
		inF := lc.blocks[b.Succs[1]]
		if inT != inF {
			stay, leave := b.Succs[0], b.Succs[1]
			if !inT {
				stay, leave = leave, stay
			}
			m := x.mark()
			if !lc.onlyExit && x.truth(c) != triOf(!inT) && x.assume(c, inT) {
				x.block(fr, stay, b)
			}
			x.undo(m)
			if x.stop {
				return
			}
			if x.quiet > 0 && lc.isProbe(fr) || lc.noExit || lc.last {
				return
			}
			if x.truth(c) != triOf(inT) && x.assume(c, !inT) {
				x.loopDone(fr, lc, func() { x.block(fr, leave, b) })
			}
			x.undo(m)
			return
		}
	}
	x.branch(c, func(t bool) {
		if t {
			x.block(fr, b.Succs[0], b)
		} else {
			x.block(fr, b.Succs[1], b)
		}
	})
}

// isProbe tells whether this is the outermost probing context: its exits are not followed.
func (lc *loopCtx) isProbe(fr *Frame) bool { return lc.probe }

func (x *Exec) extract(t *Term, i int) *Term {
	if t.op == OpTuple && i < len(t.args) {
		return t.args[i]
	}
	r := x.ts.mk(OpExtract, fmt.Sprint(i), nil, t)
	if r.ser == 0 {
		r.ser = t.ser
	}
	return r
}

func (x *Exec) index(s, i *Term, st, et types.Type) *Term {
	if str, ok := s.strVal(); ok {
		if k, ok := i.intVal(); ok && k >= 0 && int(k) < len(str) {
			return x.ts.Int(int64(str[k]))
		}
	}
	return x.ts.mk(OpIndex, "", nil, s, i)
}

func basicInfo(t types.Type) types.BasicInfo {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Info()
	}
	return 0
}

func (x *Exec) convert(v *Term, from, to types.Type) *Term {
	fi, ti := basicInfo(from), basicInfo(to)
	switch {
	case fi&types.IsInteger != 0 && ti&types.IsInteger != 0:
		wide := func(t types.Type) bool {
			switch t.Underlying().(*types.Basic).Kind() {
			case types.Int, types.Int64, types.Uint, types.Uint64, types.Uintptr, types.UntypedInt, types.UntypedRune:
				return true
			}
			return false
		}
		narrowSrc := !wide(from)
		if wide(to) && (wide(from) || narrowSrc) {
			return v
		}
		if types.Identical(from.Underlying(), to.Underlying()) {
			return v
		}
		if c, ok := x.find(v).intVal(); ok && c >= 0 && c < 128 {
			return v
		}
		return x.ts.mk(OpConv, to.Underlying().String(), nil, v)
	case fi&types.IsInteger != 0 && ti&types.IsFloat != 0:
		if x.find(v).isConst() {
			return x.find(v)
		}
		return x.ts.mk(OpConv, "tofloat", nil, v)
	case fi&types.IsFloat != 0 && ti&types.IsInteger != 0:
		t := x.ts.mk(OpConv, "toint", nil, v)
		if c, ok := x.ts.Poly(t).konst(); ok {
			return x.ts.Int(c)
		}
		return t
	case fi&types.IsFloat != 0 && ti&types.IsFloat != 0:
		return v
	case fi&types.IsString != 0 && ti&types.IsString != 0:
		return v
	case fi != 0 || ti != 0:
		if !types.Identical(from.Underlying(), to.Underlying()) {
			return x.ts.mk(OpConv, types.TypeString(to.Underlying(), nil), nil, v)
		}
	}
	return v
}

// ---- maps ----

func (x *Exec) mapSet(fr *Frame, in *ssa.MapUpdate) {
	m, k, v := x.find(x.val(fr, in.Map)), x.find(x.val(fr, in.Key)), x.val(fr, in.Value)
	if x.h.MapSet != nil && x.quiet == 0 {
		x.h.MapSet(x, fr, in, m, k, v)
	}
	x.event(Event{Kind: "mapset", Fn: fr.fn, Pos: in.Pos(), Args: []*Term{m, k, v}})
	x.mapStore(m, k, v, in.Map.Type())
}

func (x *Exec) mapStore(m, k, v *Term, t types.Type) {
	key := "m:" + types.TypeString(t.Underlying(), nil)
	slot := x.ts.mk(OpMapSlot, "", nil, m, k)
	var kill []*Term
	for a, c := range x.mem {
		if c.key == key && a != slot && x.mayAlias(a, slot) {
			kill = append(kill, a)
		}
	}
	for _, a := range kill {
		delM(x, x.mem, a)
	}
	x.escape(v)
	x.escape(k)
	if ks, ok := x.closed[m]; ok {
		found := false
		for _, o := range ks {
			if o == k {
				found = true
			}
		}
		if !found {
			setM(x, x.closed, m, append(append([]*Term{}, ks...), k))
		}
	} else {
		x.bump(key)
	}
	setM(x, x.mem, slot, cell{v, key})
	setM(x, x.lits, x.ts.mk(OpLookupOk, fmt.Sprint(x.ver[key]), nil, m, k), true)
}

// mapGet is m[k] for a key that is in the map.
func (x *Exec) mapGet(m, k *Term, et types.Type) *Term {
	slot := x.ts.mk(OpMapSlot, "", nil, m, k)
	if c, ok := x.mem[slot]; ok {
		return c.v
	}
	t := x.ts.mk(OpLookup, "", nil, m, k)
	return t
}

func (x *Exec) lookup(fr *Frame, in *ssa.Lookup, k func(*Term)) {
	m, key := x.find(x.val(fr, in.X)), x.find(x.val(fr, in.Index))
	mt, ok := in.X.Type().Underlying().(*types.Map)
	if !ok {
		k(x.index(m, key, in.X.Type(), in.Type()))
		return
	}
	give := func(v *Term, okv *Term) {
		if in.CommaOk {
			k(x.ts.mk(OpTuple, "", nil, v, okv))
		} else {
			k(v)
		}
	}
	if ks, ok := x.closed[m]; ok {
		var rec func(i int)
		rec = func(i int) {
			if i < 0 {
				give(x.zero(mt.Elem()), x.ts.Bool(false))
				return
			}
			x.branch(x.ts.Bin(token.EQL, ks[i], key, isInteger(mt.Key())), func(eq bool) {
				if eq {
					give(x.mapGet(m, ks[i], mt.Elem()), x.ts.Bool(true))
				} else {
					rec(i - 1)
				}
			})
		}
		rec(len(ks) - 1)
		return
	}
	mk := "m:" + types.TypeString(mt, nil)
	okT := x.ts.mk(OpLookupOk, fmt.Sprint(x.ver[mk]), nil, m, key)
	if okT.ser == 0 {
		okT.ser = x.ver[mk]
	}
	slot := x.ts.mk(OpMapSlot, "", nil, m, key)
	v := x.ts.mk(OpLookup, fmt.Sprint(x.ver[mk]), nil, m, key)
	if v.ser == 0 {
		v.ser = x.ver[mk]
	}
	if c, had := x.mem[slot]; had {
		v = c.v
	}
	if m.op == OpNil {
		give(x.zero(mt.Elem()), x.ts.Bool(false))
		return
	}
	if !in.CommaOk {
		if _, had := x.mem[slot]; !had {
			switch x.truth(okT) {
			case no:
				v = x.zero(mt.Elem())
			}
		}
	}
	give(v, okT)
}

// ---- calls ----

type callee struct {
	name string
	fn   *ssa.Function
	clo  *Term
	args []*Term
	impl []*ssa.Function
	dyn  bool // unknown function value
	ifc  bool
}

func calleeName(p *Prog, f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.RelString(nil)
	return strings.ReplaceAll(s, p.mod+"/", "")
}

func (x *Exec) resolveCall(fr *Frame, cc *ssa.CallCommon) callee {
	var c callee
	for _, a := range cc.Args {
		c.args = append(c.args, x.val(fr, a))
	}
	if cc.IsInvoke() {
		recv := x.find(x.val(fr, cc.Value))
		c.args = append([]*Term{recv}, c.args...)
		d := x.dynType(recv)
		if d != nil {
			if sel := x.p.ssa.MethodSets.MethodSet(d).Lookup(cc.Method.Pkg(), cc.Method.Name()); sel != nil {
				if f := x.p.ssa.MethodValue(sel); f != nil {
					c.fn = f
					c.name = calleeName(x.p, f)
					if recv.op == OpIface {
						c.args[0] = recv.args[0]
					} else {
						c.args[0] = x.ts.mk(OpAssert, "", d, recv)
					}
					return c
				}
			}
		}
		c.ifc = true
		c.name = shortType(cc.Value.Type()) + "." + cc.Method.Name()
		c.impl = x.p.implementations(cc.Value.Type(), cc.Method)
		x.ifcImpl[c.name] = c.impl
		return c
	}
	switch v := cc.Value.(type) {
	case *ssa.Function:
		c.fn = v
		c.name = calleeName(x.p, v)
		return c
	case *ssa.Builtin:
		c.name = "builtin " + v.Name()
		return c
	}
	t := x.find(x.val(fr, cc.Value))
	switch t.op {
	case OpClosure:
		c.fn, c.clo, c.name = t.fn, t, calleeName(x.p, t.fn)
	case OpFunc:
		c.fn = t.fn
		if t.fn != nil {
			c.name = calleeName(x.p, t.fn)
		} else {
			c.name = t.aux
		}
	default:
		c.dyn = true
		c.name = "dynamic " + t.String()
		c.impl = x.p.funcValues(cc.Value.Type())
	}
	return c
}

// doCall performs a call. It returns the result when the walk can go on in
// place, or nil when k has been (or never will be) called.
func (x *Exec) doCall(fr *Frame, in ssa.CallInstruction, k func(*Term)) *Term {
	c := x.resolveCall(fr, in.Common())
	return x.callee(fr, in, c, k)
}

func (x *Exec) callee(fr *Frame, in ssa.CallInstruction, c callee, k func(*Term)) *Term {
	if c.fn == nil && strings.HasPrefix(c.name, "builtin ") {
		if c.name == "builtin panic" {
			return nil
		}
		r := x.builtin(fr, in, c)
		return r
	}
	if x.h.Call != nil && x.quiet == 0 {
		x.h.Call(x, fr, in, c.name, c.fn, c.args)
	}
	x.event(Event{Kind: "call", Name: c.name, Fn: fr.fn, Pos: in.Pos(), Args: c.args})
	if x.h.Subst != nil {
		if t := x.h.Subst(x, c.name, c.fn, c.args); t != nil {
			return t
		}
	}
	if noReturn(c.name) {
		x.paths++
		if x.h.Exit != nil && x.quiet == 0 {
			x.h.Exit(x, fr, in, c.name, c.args)
		}
		return nil
	}
	if c.fn != nil && x.follow(c.fn) && !(x.h.OpaqueCall != nil && x.h.OpaqueCall(x, c.fn, c.args)) {
		var free []*Term
		if c.clo != nil {
			free = c.clo.args
		}
		nf := x.newFrame(c.fn, c.args, free, fr, in)
		nf.k = func(res *Term) {
			if x.h.Ret != nil && x.quiet == 0 {
				x.h.Ret(x, fr, in, c.name, c.fn, c.args, res)
			}
			k(res)
		}
		x.enter(nf)
		return nil
	}
	res := x.opaque(fr, in, c)
	if x.h.Result != nil {
		x.h.Result(x, in, c.fn, c.args, res)
	}
	if x.h.Ret != nil && x.quiet == 0 {
		x.h.Ret(x, fr, in, c.name, c.fn, c.args, res)
	}
	// Library functions that call back.
	return res
}

func (x *Exec) follow(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	pk := pkgOf(f)
	if pk == nil {
		return false
	}
	if x.h.Opaque != nil && !stdBuilt[pk.Path()] && x.h.Opaque(f) {
		return false
	}
	if !x.p.inRepo(f) && !stdBuilt[pk.Path()] {
		return false
	}
	if stdBuilt[pk.Path()] && isSort(f) {
		return false
	}
	if x.stack[f] > 0 || x.depth > 60 {
		return false
	}
	return true
}

// assumedPure lists methods assumed to give the same answer each time and to
// leave the state they found.
var assumedPure = map[string]bool{
	"prs.Expr.Eval": true,
}

func (x *Exec) opaque(fr *Frame, in ssa.CallInstruction, c callee) *Term {
	if x.h.Ignore != nil && x.h.Ignore(c.name) {
		return x.ts.mk(OpCall, c.name, nil, c.args...)
	}
	name := c.name
	if assumedPure[name] {
		return x.ts.mk(OpCall, name, nil, c.args...)
	}
	e := newEffects()
	repo := false
	if c.fn != nil {
		if x.p.inRepo(c.fn) || len(c.fn.Blocks) > 0 {
			repo = true
			e.add(x.p.effectsOf(c.fn))
		}
	}
	for _, f := range c.impl {
		repo = true
		e.add(x.p.effectsOf(f))
	}
	if c.dyn && len(c.impl) == 0 {
		e.all = true
	}
	// Closures handed over may be run.
	for _, a := range c.args {
		a := x.find(a)
		if (a.op == OpClosure || a.op == OpFunc) && a.fn != nil {
			e.add(x.p.effectsOf(a.fn))
		}
	}
	if c.fn != nil && isSort(c.fn) && len(c.args) > 0 {
		a := x.find(c.args[0])
		t := in.Common().Args[0].Type()
		if a.op == OpIface {
			t = a.typ
		}
		if s, ok := t.Underlying().(*types.Slice); ok {
			e.w["e:"+types.TypeString(s.Elem(), nil)] = true
		}
		x.event(Event{Kind: "sort", Name: name, Fn: fr.fn, Pos: in.Pos(), Args: c.args})
		x.havoc(e, false, nil)
		return x.ts.Nil()
	}
	pure := len(e.w) == 0 && !e.all
	if !pure {
		for _, a := range c.args {
			x.escape(a)
		}
		var rest *effects
		if x.h.Framed != nil && c.fn != nil && x.h.Framed(c.fn, nil) {
			rest = newEffects()
		}
		x.havocBut(e, true, nil, rest)
	}
	if c.fn != nil && !repo {
		if pureExternal(c.fn) {
			return x.ts.mk(OpCall, name, nil, x.canon(c.args)...)
		}
		t := x.ts.fresh(OpCall, name, nil, c.args...)
		return t
	}
	if pure && (repo || c.ifc) {
		// Same arguments, same memory: same result.
		var v strings.Builder
		keys := make([]string, 0, len(e.r))
		for k := range e.r {
			if x.ver[k] != 0 {
				keys = append(keys, k)
			}
		}
		max := 0
		for _, k := range keys {
			if x.ver[k] > max {
				max = x.ver[k]
			}
		}
		if max > 0 {
			fmt.Fprintf(&v, "@%d", max)
		}
		t := x.ts.mk(OpCall, name+v.String(), nil, x.canon(c.args)...)
		if t.ser == 0 {
			t.ser = max
		}
		return t
	}
	return x.ts.fresh(OpCall, name, nil, c.args...)
}

// canon replaces arguments by their representatives and reads variadic slices.
func (x *Exec) canon(as []*Term) []*Term {
	out := make([]*Term, len(as))
	for i, a := range as {
		a = x.find(a)
		if el, ok := x.varargs(a); ok {
			out[i] = x.ts.mk(OpTuple, "varargs", nil, el...)
			continue
		}
		out[i] = a
	}
	return out
}

// varargs lists the elements of a slice built in place.
func (x *Exec) varargs(a *Term) ([]*Term, bool) {
	if a.op != OpSlice || a.args[0].op != OpAlloc {
		return nil, false
	}
	at, ok := a.args[0].typ.Underlying().(*types.Array)
	if !ok || at.Len() > 64 {
		return nil, false
	}
	if l, ok := a.args[1].intVal(); !ok || l != 0 {
		return nil, false
	}
	n := at.Len()
	if h, ok := a.args[2].intVal(); ok {
		n = h
	} else if a.args[2].op != OpNil {
		return nil, false
	}
	var el []*Term
	for i := int64(0); i < n; i++ {
		ad := x.ts.mk(OpIndexAddr, "", nil, a.args[0], x.ts.Int(i))
		if _, ok := x.mem[ad]; !ok && !isStruct(at.Elem()) {
			return nil, false
		}
		el = append(el, x.load(ad, at.Elem()))
	}
	return el, true
}

func (x *Exec) builtin(fr *Frame, in ssa.CallInstruction, c callee) *Term {
	args := c.args
	switch strings.TrimPrefix(c.name, "builtin ") {
	case "len":
		l := x.length(args[0])
		return l
	case "cap":
		return x.ts.mk(OpCall, "cap", nil, args...)
	case "append":
		base := x.find(args[0])
		if len(args) == 1 {
			return base
		}
		x.escape(args[1])
		if base.op == OpSlice && base.aux == "" && base.args[2].op != OpNil {
			// append to a prefix: a new value, the elements after the prefix are overwritten
			if s, ok := in.Common().Args[0].Type().Underlying().(*types.Slice); ok {
				e := newEffects()
				e.w["e:"+types.TypeString(s.Elem(), nil)] = true
				if isStruct(s.Elem()) {
					structKeys(s.Elem(), e.w)
				}
				x.havoc(e, false, nil)
			}
		}
		if el, ok := x.varargs(x.find(args[1])); ok {
			as := append([]*Term{base}, el...)
			return x.ts.mk(OpAppend, "", nil, as...)
		}
		if s, ok := x.find(args[1]).strVal(); ok && s == "" {
			return base
		}
		if x.find(args[1]).op == OpNil {
			return base
		}
		return x.ts.mk(OpAppend, "...", nil, base, x.find(args[1]))
	case "delete":
		t := in.Common().Args[0].Type()
		m, k := x.find(args[0]), x.find(args[1])
		x.event(Event{Kind: "delete", Fn: fr.fn, Pos: in.Pos(), Args: []*Term{m, k}})
		if x.h.MapSet != nil && x.quiet == 0 {
			x.h.MapSet(x, fr, in, m, k, nil)
		}
		key := "m:" + types.TypeString(t.Underlying(), nil)
		var kill []*Term
		slot := x.ts.mk(OpMapSlot, "", nil, m, k)
		for a, cl := range x.mem {
			if cl.key == key && (a == slot || x.mayAlias(a, slot)) {
				kill = append(kill, a)
			}
		}
		for _, a := range kill {
			delM(x, x.mem, a)
		}
		delM(x, x.closed, m)
		x.bump(key)
		return x.ts.Nil()
	case "copy":
		x.event(Event{Kind: "copy", Fn: fr.fn, Pos: in.Pos(), Args: args})
		if x.h.Copy != nil && x.quiet == 0 {
			x.h.Copy(x, args[0], args[1])
		}
		if s, ok := in.Common().Args[0].Type().Underlying().(*types.Slice); ok {
			e := newEffects()
			e.w["e:"+types.TypeString(s.Elem(), nil)] = true
			x.havoc(e, false, nil)
		}
		return x.ts.fresh(OpSym, "copied", nil)
	case "min", "max":
		return x.ts.mk(OpCall, c.name, nil, args...)
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		x.event(Event{Kind: "call", Name: c.name, Fn: fr.fn, Pos: in.Pos(), Args: args})
		return x.ts.Nil()
	case "recover":
		return x.ts.Nil()
	}
	return x.ts.fresh(OpSym, c.name, nil)
}

func (x *Exec) goCall(fr *Frame, in *ssa.Go) {
	c := x.resolveCall(fr, &in.Call)
	if x.h.Go != nil && x.quiet == 0 {
		x.h.Go(x, fr, in, c.name, c.args)
	}
	x.event(Event{Kind: "go", Name: c.name, Fn: fr.fn, Pos: in.Pos(), Args: c.args})
	e := newEffects()
	if c.fn != nil {
		e.add(x.p.effectsOf(c.fn))
	}
	for _, f := range c.impl {
		e.add(x.p.effectsOf(f))
	}
	for _, a := range c.args {
		x.escape(a)
	}
	if c.clo != nil {
		x.escape(c.clo)
	}
	x.havoc(e, true, nil)
}

func (x *Exec) runDefers(fr *Frame, ds []deferred, k func()) {
	if len(ds) == 0 || x.h.SkipDefers {
		k()
		return
	}
	d := ds[len(ds)-1]
	c := callee{name: d.name, fn: d.fn, clo: d.clo, args: d.args}
	if d.fn == nil && !strings.HasPrefix(d.name, "builtin ") {
		c.ifc = true
	}
	if c.fn == nil && strings.HasPrefix(c.name, "builtin ") {
		if c.name == "builtin delete" || c.name == "builtin print" {
			x.builtin(fr, d.in, c)
		}
		x.runDefers(fr, ds[:len(ds)-1], k)
		return
	}
	r := x.callee(fr, d.in, c, func(*Term) { x.runDefers(fr, ds[:len(ds)-1], k) })
	if r != nil {
		x.runDefers(fr, ds[:len(ds)-1], k)
	}
}

var _ = constant.MakeBool
