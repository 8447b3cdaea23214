package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: what an expression evaluates to. Every kind of expression of the syntax
// tree is built and evaluated symbolically, and the value of every path is
// compared with the operation the operator stands for.

const pkgAst, pkgTok = "internal/ast", "internal/tok"

func isSlice(t types.Type) bool {
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

// exprWalk follows one expression from the syntax tree to its value.
type exprWalk struct {
	p     *Prog
	r     *Report
	x     *Exec
	make  *ssa.Function
	eval_ *ssa.Function
	node0 *Term // the node as its own type
	expr  *Term // the node
	src   *Term
	scop  *Term
	node  *types.Named
	early string // function with a loop that was left before its end
}

// concrete lists the types of the module that implement an interface of it.
func (p *Prog) concrete(rel, iface string) []types.Type {
	n := p.named(rel, iface)
	if n == nil {
		return nil
	}
	it, ok := n.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, pk := range p.pkgs {
		sc := pk.Types.Scope()
		for _, nm := range sc.Names() {
			tn, ok := sc.Lookup(nm).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, isI := tn.Type().Underlying().(*types.Interface); isI {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			} else if types.Implements(types.NewPointer(tn.Type()), it) {
				out = append(out, types.NewPointer(tn.Type()))
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func typeName(t types.Type) string {
	if n, ok := deref(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return shortType(t)
}

// walkExpr builds and evaluates an expression of the given kind. assume adds
// facts before; each is called for every value or error that comes out.
func walkExpr(p *Prog, r *Report, mk *ssa.Function, node types.Type, assume func(w *exprWalk), each func(w *exprWalk, v, err *Term)) *Exec {
	w := &exprWalk{p: p, r: r, make: mk}
	h := Hooks{
		Opaque: func(f *ssa.Function) bool {
			return inPkg(f, pkgTok) || inPkg(f, pkgVal) && f.Signature.Recv() == nil || inPkg(f, pkgUtil)
		},
		Div: func(x *Exec, fr *Frame, in *ssa.BinOp, a, b *Term) {
			if x.quiet > 0 {
				return
			}
			d := x.ts.Poly(b)
			ok := x.truth(x.ts.Bin(token.EQL, b, x.ts.Int(0), true)) == no || x.entails(plusC(neg(d), 1)) || x.entails(plusC(d, 1))
			r.ob("division", p.fname(fr.fn)+" "+in.Op.String(), ok, p.pos(in.Pos()), "an expression may divide by zero and end the compiler")
		},
		Panic: func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
			r.ob("no-panic", typeName(node)+" in "+p.fname(fr.fn)+" "+what, false, p.pos(in.Pos()), "evaluating an expression may end in a panic")
		},
	}
	h.BackEdge = w.back
	h.LoopLeave = func(x *Exec, fr *Frame, lc *loopCtx, byHeader bool) {
		if !byHeader {
			old := w.early
			w.early = p.fname(fr.fn)
			x.trail = append(x.trail, func() { w.early = old })
		}
	}
	x := newExec(p, h)
	w.x = x
	args := x.params(mk)
	for i, prm := range mk.Params {
		switch {
		case types.IsInterface(prm.Type()) && isNamed(prm.Type(), pkgAst, "Expr"):
			w.expr = args[i]
		case types.IsInterface(prm.Type()):
			w.scop = args[i]
		default:
			w.src = args[i]
		}
	}
	if w.expr == nil || w.scop == nil {
		r.missing("the function that builds expressions from the syntax tree")
		return x
	}
	x.assume(x.ts.mk(OpAssertOk, "", node, w.expr), true)
	w.node0 = x.ts.mk(OpAssert, "", node, w.expr)
	if n, ok := deref(node).(*types.Named); ok {
		w.node = n
	}
	if assume != nil {
		assume(w)
	}
	x.run(mk, args, func(fr *Frame, res *Term) {
		e, err := x.extract(res, 0), x.extract(res, 1)
		switch x.truth(x.ts.Bin(token.EQL, err, x.ts.Nil(), false)) {
		case no:
			each(w, nil, err)
			return
		case unknown:
			if !x.assume(x.ts.Bin(token.EQL, err, x.ts.Nil(), false), true) {
				return
			}
		}
		w.eval(e, each)
	})
	return x
}

// eval evaluates the expression built.
func (w *exprWalk) eval(e *Term, each func(w *exprWalk, v, err *Term)) {
	x := w.x
	e = x.find(e)
	d := x.dynType(e)
	if d == nil {
		each(w, e, nil) // another expression, unchanged
		return
	}
	sel := w.p.ssa.MethodSets.MethodSet(d).Lookup(nil, "Eval")
	if sel == nil {
		each(w, nil, nil)
		return
	}
	f := w.p.ssa.MethodValue(sel)
	w.eval_ = f
	recv := x.ts.mk(OpAssert, "", d, e)
	if e.op == OpIface {
		recv = e.args[0]
	}
	x.run(f, []*Term{recv}, func(fr *Frame, res *Term) {
		v, err := x.extract(res, 0), x.extract(res, 1)
		if x.truth(x.ts.Bin(token.EQL, err, x.ts.Nil(), false)) == yes {
			each(w, v, nil)
		} else {
			each(w, v, err)
		}
	})
}

// split takes an interface value apart.
func (w *exprWalk) split(v *Term) (types.Type, *Term) {
	v = w.x.find(v)
	if v.op == OpIface {
		return v.typ, w.x.find(v.args[0])
	}
	if d := w.x.dynType(v); d != nil {
		return d, w.x.ts.mk(OpAssert, "", d, v)
	}
	return nil, v
}

// isOp tells if t is the expression made of the given field of the node.
func (w *exprWalk) isOp(t *Term, field string) bool {
	t = w.x.find(t)
	if t.op != OpExtract || t.aux != "0" {
		return false
	}
	c := w.x.find(t.args[0])
	if c.op != OpCall || c.fn != w.make && !strings.HasPrefix(c.aux, w.p.fname(w.make)) {
		return false
	}
	e, s, src := false, false, false
	for _, a := range c.args {
		switch {
		case w.isField(a, field):
			e = true
		case w.x.same(a, w.scop):
			s = true
		case w.src != nil && w.x.same(a, w.src):
			src = true
		}
	}
	return e && s && src
}

// isField tells if t is the given field of the node.
func (w *exprWalk) isField(t *Term, field string) bool {
	st, ok := w.node.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return w.x.same(t, w.x.Field(w.node0, w.node, i))
		}
	}
	return false
}

// fieldTerm is the value of a field of the node.
func (w *exprWalk) fieldTerm(field string) *Term {
	st := w.node.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == field {
			return w.x.Field(w.node0, w.node, i)
		}
	}
	return w.x.ts.Nil()
}

// evaled returns the expression t is the value of.
func (w *exprWalk) evaled(t *Term) *Term {
	t = w.x.find(t)
	if t.op != OpExtract || t.aux != "0" {
		return nil
	}
	c := w.x.find(t.args[0])
	if c.op == OpCall && strings.HasSuffix(c.aux, "prs.Expr.Eval") && len(c.args) == 1 {
		return w.x.find(c.args[0])
	}
	return nil
}

// operand finds the value of an operand on this path.
func (w *exprWalk) operand(is func(e *Term) bool) *Term {
	var out *Term
	for l := range w.x.lits {
		l.contains(func(s *Term) bool {
			if out == nil {
				if e := w.evaled(s); e != nil && is(e) {
					out = s
				}
			}
			return false
		})
	}
	return out
}

// failed tells if some step this expression is made of reported an error.
func (w *exprWalk) failed() bool {
	for l, b := range w.x.lits {
		if b || l.op != OpBin || l.aux != "==" {
			continue
		}
		for i := range l.args {
			if o := w.x.find(l.args[1-i]); l.args[i].op == OpNil && o.op == OpExtract && o.aux == "1" && w.x.find(o.args[0]).op == OpCall {
				return true
			}
		}
	}
	return false
}

// lit returns the truth of the first path fact f accepts.
func (w *exprWalk) fact(f func(l *Term, b bool) bool) bool {
	for l, b := range w.x.lits {
		if f(l, b) {
			return true
		}
	}
	return false
}

// text tells if t is the text of the token in a field of the node.
func (w *exprWalk) text(t *Term, field string) bool {
	if t.op != OpCall {
		t = w.x.find(t)
	}
	if t.op != OpCall || !strings.HasSuffix(strings.SplitN(t.aux, "#", 2)[0], "tok.Text") || len(t.args) != 2 || !w.x.same(t.args[1], w.src) {
		return false
	}
	a := w.x.find(t.args[0])
	if w.isField(a, field) {
		return true
	}
	_, v := w.split(a)
	return w.isField(v, field)
}

// textIs returns the literal the text of the field is known to be.
func (w *exprWalk) textIs(field string) (string, bool) {
	for l, b := range w.x.lits {
		if !b || l.op != OpBin || l.aux != "==" {
			continue
		}
		for i := range l.args {
			if s, ok := l.args[i].strVal(); ok && w.text(l.args[1-i], field) {
				return s, true
			}
		}
	}
	return "", false
}

func (w *exprWalk) isCall(t *Term, name string) ([]*Term, bool) {
	if t.op != OpCall {
		t = w.x.find(t)
	}
	if t.op != OpCall || strings.SplitN(t.aux, "#", 2)[0] != name {
		return nil, false
	}
	return t.args, true
}

func (w *exprWalk) valType(name string) types.Type { return w.p.named(pkgVal, name) }

func (w *exprWalk) is(t types.Type, name string) bool {
	n := w.p.named(pkgVal, name)
	return t != nil && n != nil && types.Identical(t, n)
}

// asInt is the value of v as an integer, and if it is known to be one.
func (w *exprWalk) asType(v *Term, name string) (*Term, tri) {
	n := w.p.named(pkgVal, name)
	if n == nil || v == nil {
		return nil, no
	}
	k := w.x.assertOk(v, n)
	return w.x.ts.mk(OpAssert, "", n, v), k
}

func (w *exprWalk) float(t *Term) *Term   { return w.x.ts.mk(OpConv, "tofloat", nil, t) }
func (w *exprWalk) integer(t *Term) *Term { return w.x.ts.mk(OpConv, "toint", nil, t) }

func (w *exprWalk) eqZero(t *Term) tri {
	return w.x.truth(w.x.ts.Bin(token.EQL, t, w.x.ts.Int(0), true))
}

func (w *exprWalk) less(a, b *Term) tri { return w.x.truth(w.x.ts.Bin(token.LSS, a, b, true)) }

// arithmetic is the meaning of the binary operators. The result tells if the
// value v is right for the integers a and b; v is nil when there is an error,
// the result tells if it is justified then.
var arithmetic = map[string]func(w *exprWalk, a, b, v *Term, vt types.Type) bool{
	"Add": func(w *exprWalk, a, b, v *Term, vt types.Type) bool { return w.intOp(token.ADD, a, b, v, vt) },
	"Sub": func(w *exprWalk, a, b, v *Term, vt types.Type) bool { return w.intOp(token.SUB, a, b, v, vt) },
	"Mul": func(w *exprWalk, a, b, v *Term, vt types.Type) bool { return w.intOp(token.MUL, a, b, v, vt) },
	"Rem": func(w *exprWalk, a, b, v *Term, vt types.Type) bool {
		if v == nil {
			return w.eqZero(b) == yes
		}
		return w.intOp(token.REM, a, b, v, vt)
	},
	"Div": func(w *exprWalk, a, b, v *Term, vt types.Type) bool {
		if v == nil {
			return w.eqZero(b) == yes
		}
		rem := w.eqZero(w.x.ts.Bin(token.REM, a, b, true))
		switch {
		case w.is(vt, "Int"):
			return rem == yes && w.intOp(token.QUO, a, b, v, vt)
		case w.is(vt, "Float"):
			return rem == no && w.x.same(v, w.x.ts.Bin(token.QUO, w.float(a), w.float(b), false))
		}
		return false
	},
	"LShift": func(w *exprWalk, a, b, v *Term, vt types.Type) bool { return w.shift(token.SHL, a, b, v, vt) },
	"RShift": func(w *exprWalk, a, b, v *Term, vt types.Type) bool { return w.shift(token.SHR, a, b, v, vt) },
	"Exp": func(w *exprWalk, a, b, v *Term, vt types.Type) bool {
		neg := w.less(b, w.x.ts.Int(0))
		exp := func(t *Term) bool {
			e, ok := w.isCall(t, "(*math/big.Int).Exp")
			if !ok || len(e) != 4 || w.x.find(e[3]).op != OpNil {
				return false
			}
			p, ok1 := w.isCall(e[1], "math/big.NewInt")
			q, ok2 := w.isCall(e[2], "math/big.NewInt")
			return ok1 && ok2 && w.x.same(p[0], a) && w.x.same(q[0], b)
		}
		if v == nil {
			if neg == yes {
				return w.eqZero(a) == yes
			}
			big := w.less(w.x.ts.Int(62), b) == yes && (w.less(a, w.x.ts.Int(-2)) == yes || w.less(w.x.ts.Int(1), a) == yes) ||
				w.less(w.x.ts.Int(63), b) == yes && w.less(a, w.x.ts.Int(-1)) == yes
			return big || w.fact(func(l *Term, f bool) bool {
				i, ok := w.isCall(l, "(*math/big.Int).IsInt64")
				return ok && !f && exp(i[0])
			})
		}
		if !w.is(vt, "Int") {
			return false
		}
		if neg == yes {
			c, ok := w.toint(v)
			if !ok || w.eqZero(a) == yes {
				return false
			}
			p, ok := w.isCall(c, "math.Pow")
			return ok && w.x.same(p[0], w.float(a)) && w.x.same(p[1], w.float(b))
		}
		i, ok := w.isCall(v, "(*math/big.Int).Int64")
		return neg == no && ok && exp(i[0]) && w.fact(func(l *Term, f bool) bool {
			j, ok := w.isCall(l, "(*math/big.Int).IsInt64")
			return ok && f && w.x.same(i[0], j[0])
		})
	},
	"Colon": func(w *exprWalk, a, b, v *Term, vt types.Type) bool {
		if v == nil || !w.is(vt, "Range") {
			return false
		}
		return w.x.same(w.x.Field(v, vt, 0), a) && w.x.same(w.x.Field(v, vt, 1), b)
	},
}

func (w *exprWalk) toint(t *Term) (*Term, bool) {
	t = w.x.find(t)
	if t.op == OpConv && t.aux == "toint" {
		return w.x.find(t.args[0]), true
	}
	return nil, false
}

func (w *exprWalk) intOp(op token.Token, a, b, v *Term, vt types.Type) bool {
	return v != nil && w.is(vt, "Int") && w.x.same(v, w.x.ts.Bin(op, a, b, true))
}

func (w *exprWalk) shift(op token.Token, a, b, v *Term, vt types.Type) bool {
	if v == nil {
		return w.less(b, w.x.ts.Int(0)) == yes
	}
	return w.less(b, w.x.ts.Int(0)) == no && w.intOp(op, a, b, v, vt)
}

// binary checks the value of a binary expression with the given operator.
func (w *exprWalk) binary(op string, v, err *Term) {
	r, pos := w.r, w.where()
	x := w.operand(func(e *Term) bool { return w.isOp(e, "X") })
	y := w.operand(func(e *Term) bool { return w.isOp(e, "Y") })
	spec := arithmetic[op]
	a, ka := w.asType(x, "Int")
	b, kb := w.asType(y, "Int")
	if err != nil {
		if w.failed() || spec == nil || x != nil && ka == no || y != nil && kb == no {
			r.ob("binary", op+" error", true, pos, "")
			return
		}
		ok := x != nil && y != nil && spec(w, a, b, nil, nil)
		r.ob("binary", op+" error", ok, pos, "operator %s may refuse two integers without a reason", op)
		return
	}
	if w.failed() {
		r.ob("binary", op+" operand error", false, pos, "operator %s may give a value although an operand is in error", op)
		return
	}
	if spec == nil || x == nil || y == nil || ka != yes || kb != yes {
		r.ob("binary", op+" types", false, pos, "operator %s may give a value for operands it does not support", op)
		return
	}
	vt, in := w.split(v)
	ok := spec(w, a, b, in, vt)
	r.ob("binary", op+" value", ok, pos, "the value of operator %s on two integers may be %s", op, w.show(in))
}

func (w *exprWalk) show(t *Term) string {
	s := fmt.Sprint(t)
	s = strings.ReplaceAll(s, "prs.Expr.Eval", "eval")
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func (w *exprWalk) where() string {
	if w.eval_ != nil {
		return w.p.pos(w.eval_.Pos())
	}
	return w.p.pos(w.make.Pos())
}

func (w *exprWalk) unary(v, err *Term) {
	r, pos := w.r, w.where()
	op, _ := w.textIs("Op")
	x := w.operand(func(e *Term) bool { return w.isOp(e, "X") })
	a, k := w.asType(x, "Int")
	if err != nil {
		ok := w.failed() || x != nil && k == no || op != "+" && op != "-"
		r.ob("unary", "error", ok, pos, "the unary operator %q may refuse an integer", op)
		return
	}
	vt, in := w.split(v)
	ok := !w.failed() && x != nil && k == yes && w.is(vt, "Int")
	switch op {
	case "+":
		ok = ok && w.x.same(in, a)
	case "-":
		ok = ok && w.x.same(w.x.ts.Bin(token.ADD, in, a, true), w.x.ts.Int(0))
	default:
		ok = false
	}
	r.ob("unary", op+" value", ok, pos, "the value of the unary operator %q may be %s", op, w.show(in))
}

// call checks the value of a function.
func (w *exprWalk) call(v, err *Term) {
	r, pos := w.r, w.where()
	w.allDone(err)
	fn, known := w.textIs("Name")
	x := w.operand(func(e *Term) bool {
		i, ok := w.element(e)
		return ok && w.x.same(i, w.x.ts.Int(0))
	})
	n, kn := w.asType(x, "Int")
	f, kf := w.asType(x, "Float")
	supported := fn != "bool" && kf != no || kn != no
	arg := func() *Term {
		if kn == yes {
			return w.float(n)
		}
		return f
	}
	if err != nil {
		ok := w.failed() || !known || x != nil && !supported
		if x == nil && !ok {
			// the number of arguments is wrong
			ok = w.fact(func(l *Term, b bool) bool {
				return l.op == OpBin && l.aux == "==" && !b && l.contains(func(t *Term) bool { return t.op == OpLen || t.op == OpAppend || t.op == OpSym })
			})
		}
		if !ok && x != nil && (fn == "log2" || fn == "log10") && (kn == yes || kf == yes) {
			ok = w.less(w.x.ts.Int(0), arg()) == no
		}
		r.ob("function", fn+" error", ok, pos, "function %q may refuse an argument it is made for", fn)
		return
	}
	vt, in := w.split(v)
	ok := !w.failed() && known && x != nil && (kn == yes || kf == yes)
	if ok {
		ok = w.function(fn, n, f, kn == yes, arg(), in, vt)
	}
	r.ob("function", fn+" value", ok, pos, "the value of function %q may be %s", fn, w.show(in))
}

// functions is the number of values of the functions of the language.
func (w *exprWalk) function(fn string, n, f *Term, isInt bool, arg, v *Term, vt types.Type) bool {
	x := w.x
	toint := func(name string) bool {
		c, ok := w.toint(v)
		if !ok {
			return false
		}
		a, ok := w.isCall(c, name)
		return ok && x.same(a[0], f)
	}
	switch fn {
	case "bool":
		if !isInt || !w.is(vt, "Bool") {
			return false
		}
		z := w.eqZero(n)
		switch {
		case v.isTrue():
			return z == no
		case v.isFalse():
			return z == yes
		}
		want := x.ts.Not(x.ts.Bin(token.EQL, n, x.ts.Int(0), true))
		return x.same(v, want)
	case "ceil", "floor":
		if !w.is(vt, "Int") {
			return false
		}
		if isInt {
			return x.same(v, n)
		}
		return toint(map[string]string{"ceil": "math.Ceil", "floor": "math.Floor"}[fn])
	case "log2", "log10":
		if w.less(x.ts.Int(0), arg) != yes {
			return false
		}
		log := func(t *Term) bool {
			a, ok := w.isCall(t, map[string]string{"log2": "math.Log2", "log10": "math.Log10"}[fn])
			return ok && x.same(a[0], arg)
		}
		good := func(t *Term) bool {
			t = x.find(t)
			if log(t) {
				return true
			}
			a, ok := w.isCall(t, "math.Round")
			if !ok || !log(a[0]) {
				return false
			}
			// rounded only where the argument is that power
			return w.fact(func(l *Term, b bool) bool {
				if l.op != OpBin || l.aux != "==" || !b {
					return false
				}
				for i := range l.args {
					p, ok := w.isCall(l.args[i], map[string]string{"log2": "math.Exp2", "log10": "math.Pow10"}[fn])
					if !ok || !x.same(l.args[1-i], arg) {
						continue
					}
					if c, isI := w.toint(p[0]); isI && x.same(c, t) || x.same(p[0], t) {
						return true
					}
				}
				return false
			})
		}
		whole := func(t *Term) tri { return x.truth(x.ts.Bin(token.EQL, t, w.float(w.integer(t)), false)) }
		if w.is(vt, "Int") {
			c, ok := w.toint(v)
			return ok && good(c) && whole(c) == yes
		}
		return w.is(vt, "Float") && good(v) && whole(v) == no
	}
	return false
}

// element returns the index of an element of a slice of expressions.
func (w *exprWalk) element(e *Term) (*Term, bool) {
	if e.op != OpLoad {
		e = w.x.find(e)
	}
	if e.op != OpLoad || len(e.args) == 0 {
		return nil, false
	}
	a := w.x.find(e.args[0])
	if a.op != OpIndexAddr {
		return nil, false
	}
	return w.x.find(a.args[1]), true
}

// back checks that a loop over operands handles them in order, one by one.
func (w *exprWalk) back(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
	field := map[string]string{"List": "Xs", "Call": "Args"}[w.node.Obj().Name()]
	var added []*Term
	note := func(v *Term, gen func(base *Term) bool) {
		v = x.find(v)
		if v.op == OpAppend && v.aux == "" && gen(x.find(v.args[0])) {
			added = append(added, v.args[1:]...)
		}
	}
	lists := 0
	for ph, v := range next {
		if isSlice(ph.Type()) {
			lists++
			note(v, func(b *Term) bool { return b == x.find(lc.phi[ph]) })
		}
	}
	for a, c := range x.mem {
		if p, ok := lc.pre[a]; ok && p.v != c.v {
			note(c.v, func(b *Term) bool { return true })
		}
		if a.op == OpIndexAddr && x.same(a.args[1], lc.k) && c.v != nil {
			added = append(added, c.v)
		}
	}
	pos := w.p.pos(lc.header.Instrs[0].Pos())
	if pos == "-" || pos == "" {
		pos = w.p.pos(fr.fn.Pos())
	}
	n := 0
	for _, a := range added {
		a = x.find(a)
		if w.isElem(a, field, lc.k) {
			n++
			continue
		}
		if e := w.evaled(a); e != nil {
			if i, ok := w.element(e); ok && x.same(i, lc.k) {
				n++
				continue
			}
		}
		n = -1000
	}
	w.r.ob("in-order", w.node.Obj().Name()+" in "+w.p.fname(fr.fn), n == 1, pos, "a turn of the loop does not add exactly the expression at its own place to the result")
}

// isElem tells if a is the expression made of element k of a field of the node.
func (w *exprWalk) isElem(a *Term, field string, k *Term) bool {
	a = w.x.find(a)
	if field == "" || a.op != OpExtract || a.aux != "0" {
		return false
	}
	c := w.x.find(a.args[0])
	if c.op != OpCall || !strings.HasPrefix(c.aux, w.p.fname(w.make)) {
		return false
	}
	el, sc := false, false
	for _, g := range c.args {
		g = w.x.find(g)
		if w.x.same(g, w.scop) {
			sc = true
		}
		if i, ok := w.element(g); ok && w.x.same(i, k) && w.x.same(w.x.find(g.args[0]).args[0], w.fieldTerm(field)) {
			el = true
		}
	}
	return el && sc
}

// complete tells if the loop over the field came to its end.
func (w *exprWalk) complete(list func(l *Term) bool) bool {
	return w.fact(func(l *Term, b bool) bool {
		return !b && l.op == OpBin && l.aux == "<" && list(w.x.find(l.args[1]))
	})
}

// allDone checks that a value is not made of a part of the operands.
func (w *exprWalk) allDone(err *Term) {
	if err == nil {
		w.r.ob("in-order", w.node.Obj().Name()+" all", w.early == "", w.where(), "a loop of %s may end before the last expression was handled", w.early)
	}
}

// literal checks the expressions without operands.
func (w *exprWalk) literal(v, err *Term) {
	r, pos, name := w.r, w.where(), w.node.Obj().Name()
	w.allDone(err)
	if err != nil {
		ok := w.failed()
		if name == "Ident" || name == "QualIdent" {
			ok = ok || w.fact(func(l *Term, b bool) bool {
				// a mark that the constant is busy
				return b && (l.op == OpLoad || (l.op == OpLookup || l.op == OpLookupOk) && w.x.find(l.args[0]).op == OpLoad ||
					l.op == OpBin && l.aux == "==" && (w.x.ts.isIntConst(l.args[0]) || w.x.ts.isIntConst(l.args[1])))
			})
		}
		r.ob("literal", name+" error", ok, pos, "an expression of kind %s may be refused without a reason", name)
		return
	}
	vt, in := w.split(v)
	ok := !w.failed()
	call := func(t *Term, fn string, rest ...int64) ([]*Term, bool) {
		t = w.x.find(t)
		if t.op != OpExtract || t.aux != "0" {
			return nil, false
		}
		a, ok := w.isCall(t.args[0], fn)
		if !ok {
			return nil, false
		}
		for i, c := range rest {
			if i+1 >= len(a) || !w.x.same(a[i+1], w.x.ts.Int(c)) {
				return nil, false
			}
		}
		return a, true
	}
	switch name {
	case "Int":
		a, k := call(in, "strconv.ParseInt", 0, 64)
		ok = ok && k && w.is(vt, "Int") && w.text(a[0], "X")
	case "Float":
		a, k := call(in, "strconv.ParseFloat", 64)
		ok = ok && k && w.is(vt, "Float") && w.text(a[0], "X")
	case "BitString":
		a, k := call(in, "internal/val.MakeBitStr")
		ok = ok && k && w.is(vt, "BitStr") && w.text(a[0], "X")
	case "Bool":
		s, _ := w.textIs("X")
		ok = ok && w.is(vt, "Bool")
		switch {
		case in.isTrue():
			ok = ok && s == "true"
		case in.isFalse():
			ok = ok && (s == "false" || w.fact(func(l *Term, b bool) bool { return !b && w.isTrueText(l) }))
		default:
			ok = ok && w.isTrueText(in)
		}
	case "String":
		s := w.x.find(in)
		ok = ok && w.is(vt, "Str") && s.op == OpSlice && w.text(s.args[0], "X") && w.x.same(s.args[1], w.x.ts.Int(1)) &&
			w.x.same(w.x.ts.Bin(token.ADD, s.args[2], w.x.ts.Int(1), true), w.x.length(s.args[0]))
	case "Ident", "QualIdent":
		e := w.evaled(v)
		g := (*Term)(nil)
		if e != nil {
			e.contains(func(t *Term) bool {
				if t.op == OpCall && strings.HasSuffix(t.aux, "Scope.GetConst") {
					g = t
				}
				return false
			})
		}
		ok = ok && g != nil && e.op == OpLoad && w.x.find(e.args[0]).op == OpFieldAddr && strings.HasSuffix(fmt.Sprint(e), ".0.Value") && w.x.same(g.args[0], w.scop) && w.text(g.args[1], "Name")
	case "ParenExpr":
		ok = ok && w.isOp(v, "X")
	case "List":
		s := w.x.find(in)
		ok = ok && w.is(vt, "List") && s.op != OpNil && w.complete(func(l *Term) bool { return w.x.same(l, w.x.length(w.fieldTerm("Xs"))) })
	}
	r.ob("literal", name+" value", ok, pos, "the value of an expression of kind %s may be %s", name, w.show(in))
}

func (w *exprWalk) isTrueText(l *Term) bool {
	l = w.x.find(l)
	if l.op != OpBin || l.aux != "==" {
		return false
	}
	for i := range l.args {
		if s, ok := l.args[i].strVal(); ok && s == "true" && w.text(l.args[1-i], "X") {
			return true
		}
	}
	return false
}

// time checks the value of a time.
func (w *exprWalk) time(v, err *Term) {
	r, pos := w.r, w.where()
	if err != nil {
		r.ob("time", "error", w.failed(), pos, "a time may be refused without a reason")
		return
	}
	word := func(t *Term, i int64) bool {
		k, ok := w.element(t)
		if !ok || !w.x.same(k, w.x.ts.Int(i)) {
			return false
		}
		a, ok := w.isCall(w.x.find(t.args[0]).args[0], "strings.Fields")
		return ok && w.text(a[0], "X")
	}
	unit := ""
	for l, b := range w.x.lits {
		if b && l.op == OpBin && l.aux == "==" {
			for i := range l.args {
				if s, ok := l.args[i].strVal(); ok && word(l.args[1-i], 1) {
					unit = s
				}
			}
		}
	}
	mul, ok := map[string]int64{"s": 1000000000, "ms": 1000000, "us": 1000, "ns": 1}[unit]
	if !ok {
		return // no such text
	}
	vt, in := w.split(v)
	ok = w.is(vt, "Time")
	if ok {
		s, ns := w.x.Field(in, vt, 0), w.x.Field(in, vt, 1)
		var num *Term
		for _, t := range []*Term{s, ns} {
			t.contains(func(u *Term) bool {
				if u.op == OpExtract && u.aux == "0" {
					if a, k := w.isCall(u.args[0], "strconv.ParseInt"); k && word(a[0], 0) && w.x.same(a[1], w.x.ts.Int(10)) && w.x.same(a[2], w.x.ts.Int(64)) {
						num = u
					}
				}
				return false
			})
		}
		ok = num != nil
		if ok {
			p := polyConst(0).add(w.x.ts.Poly(s), 1000000000).add(w.x.ts.Poly(ns), 1).add(w.x.ts.Poly(num), -mul)
			c, isC := w.x.substPoly(p).konst()
			ok = isC && c == 0 && (unit == "s" || w.x.entails(plusC(w.x.ts.Poly(ns), -999999999)))
		}
	}
	r.ob("time", unit, ok, pos, "the value of a time in %s may be %s", unit, w.show(in))
}

func checkExpr(p *Prog, r *Report) {
	mk := p.fn(pkgPrs, "MakeExpr")
	if mk == nil {
		r.missing("MakeExpr")
		return
	}
	ops := p.concrete(pkgTok, "Operator")
	for _, t := range p.concrete(pkgAst, "Expr") {
		name := typeName(t)
		done := func(x *Exec, what string) {
			r.done(x, what)
		}
		switch name {
		case "BinaryExpr":
			for _, op := range ops {
				done(walkExpr(p, r, mk, t, func(w *exprWalk) {
					w.x.assume(w.x.ts.mk(OpAssertOk, "", op, w.fieldTerm("Op")), true)
				}, func(w *exprWalk, v, err *Term) { w.binary(typeName(op), v, err) }), "operator "+typeName(op))
			}
		case "UnaryExpr":
			done(walkExpr(p, r, mk, t, nil, (*exprWalk).unary), name)
		case "Call":
			done(walkExpr(p, r, mk, t, nil, (*exprWalk).call), name)
		case "Time":
			done(walkExpr(p, r, mk, t, nil, (*exprWalk).time), name)
		default:
			done(walkExpr(p, r, mk, t, nil, (*exprWalk).literal), name)
		}
	}
	checkPrecedence(p, r)
	checkTokens(p, r)
	checkGrammar(p, r)
	for op := range arithmetic {
		r.ob("binary", op+" value", r.obs["binary|"+op+" value"] != nil, p.pos(mk.Pos()), "operator %s never gives a value", op)
	}
	for _, f := range []string{"bool", "ceil", "floor", "log2", "log10"} {
		r.ob("function", f+" value", r.obs["function|"+f+" value"] != nil, p.pos(mk.Pos()), "function %s never gives a value", f)
	}
	for _, u := range []string{"s", "ms", "us", "ns"} {
		r.ob("time", u, r.obs["time|"+u] != nil, p.pos(mk.Pos()), "a time in %s never has a value", u)
	}
	for _, u := range []string{"+ value", "- value"} {
		r.ob("unary", u, r.obs["unary|"+u] != nil, p.pos(mk.Pos()), "the unary operator never gives a value")
	}
	for _, u := range []string{"Int", "Float", "BitString", "Bool", "String", "Ident", "QualIdent", "ParenExpr", "List"} {
		u += " value"
		r.ob("literal", u, r.obs["literal|"+u] != nil, p.pos(mk.Pos()), "the expression never gives a value")
	}
	for _, u := range []string{"List in", "Call in"} {
		ok := false
		for k := range r.obs {
			ok = ok || strings.HasPrefix(k, "in-order|"+u)
		}
		r.ob("in-order", u+" general", ok, p.pos(mk.Pos()), "no loop over the expressions of it was found")
	}
}

func init() { checks["C19"] = checkExpr }

func (ts *Terms) isIntConst(t *Term) bool {
	_, ok := ts.Poly(t).konst()
	return ok && t.isConst()
}
