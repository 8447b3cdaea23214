package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The part of C19 before the syntax tree: the token of every operator, their
// precedence, and the shape of the tree.

// opLevel orders the operators by how tight they bind.
var opLevel = map[string]int{
	"Colon": 0, "Or": 1, "And": 2,
	"Eq": 3, "Neq": 3, "Less": 3, "LessEq": 3, "Greater": 3, "GreaterEq": 3,
	"Add": 4, "Sub": 4, "BitOr": 4, "Xor": 4,
	"Mul": 5, "Div": 5, "Rem": 5, "LShift": 5, "RShift": 5, "BitAnd": 5,
	"Exp": 6,
}

// opText is the text of the operators and brackets.
var opText = map[string]string{
	"+": "Add", "-": "Sub", "*": "Mul", "/": "Div", "%": "Rem", "**": "Exp",
	"==": "Eq", "!=": "Neq", "<": "Less", "<=": "LessEq", ">": "Greater", ">=": "GreaterEq",
	"&&": "And", "||": "Or", "<<": "LShift", ">>": "RShift", "&": "BitAnd", "|": "BitOr", ":": "Colon",
	"!": "Neg", "=": "Ass", "(": "LParen", ")": "RParen", "[": "LBracket", "]": "RBracket",
}

// nodeOf are the nodes an expression may begin with for a token.
var nodeOf = map[string]string{
	"Neg": "UnaryExpr", "Sub": "UnaryExpr", "Add": "UnaryExpr", "Ident": "Ident Call", "QualIdent": "QualIdent Call",
	"Bool": "Bool", "Int": "Int", "Float": "Float", "String": "String", "Time": "Time", "BitString": "BitString",
	"LParen": "ParenExpr", "LBracket": "List",
}

func checkPrecedence(p *Prog, r *Report) {
	prec := map[string]int64{}
	at := map[string]string{}
	for _, op := range p.concrete(pkgTok, "Operator") {
		sel := p.ssa.MethodSets.MethodSet(op).Lookup(nil, "Precedence")
		if sel == nil {
			continue
		}
		f := p.ssa.MethodValue(sel)
		name := typeName(op)
		at[name] = p.pos(f.Pos())
		x := newExec(p, Hooks{})
		known, n := true, 0
		x.run(f, x.params(f), func(fr *Frame, res *Term) {
			c, ok := x.find(res).intVal()
			known = known && ok && (n == 0 || c == prec[name])
			prec[name] = c
			n++
		})
		r.done(x, "precedence of "+name)
		r.ob("precedence", name+" known", known && n > 0, at[name], "the precedence of operator %s is not constant", name)
	}
	for a, la := range opLevel {
		pa, ok := prec[a]
		if !ok {
			r.ob("precedence", a+" known", false, "-", "operator %s has no precedence", a)
			continue
		}
		bad := ""
		for b, lb := range opLevel {
			if pb, ok := prec[b]; ok && ((la < lb) != (pa < pb) || (la == lb) != (pa == pb)) && (bad == "" || b < bad) {
				bad = b
			}
		}
		r.ob("precedence", a, bad == "", at[a], "operator %s does not bind as it should compared with operator %s", a, bad)
	}
}

// cellField tells if the address is that of the named field.
func cellField(a *Term, name string) bool {
	return a.op == OpFieldAddr && strings.HasSuffix(a.aux, ":"+name)
}

// grown returns what a turn of the loop adds to lists.
func grown(x *Exec, lc *loopCtx, next map[*ssa.Phi]*Term) []*Term {
	var out []*Term
	note := func(v *Term) {
		v = x.find(v)
		if v.op == OpAppend && v.aux == "" {
			out = append(out, v.args[1:]...)
		}
	}
	for ph, v := range next {
		if isSlice(ph.Type()) && v != lc.phi[ph] {
			note(v)
		}
	}
	for a, c := range x.mem {
		if p, ok := lc.pre[a]; (!ok || p.v != c.v) && c.v != nil {
			if r := rootOf(a); ok || r.ser == 0 || r.ser <= lc.mark {
				note(c.v)
			}
		}
	}
	return out
}

// checkTokens: operators are recognised by their text.
func checkTokens(p *Prog, r *Report) {
	f := p.fn(pkgTok, "Parse")
	if f == nil {
		r.missing("the function that makes tokens")
		return
	}
	seen := map[string]bool{}
	var main *loopCtx
	h := Hooks{}
	// scanning words and numbers is not followed
	h.Opaque = func(g *ssa.Function) bool { return g != f && loopy(g, 0) }
	h.LoopEnter = func(x *Exec, fr *Frame, lc *loopCtx) {
		if main == nil {
			main = lc
		}
	}
	h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
		if fr.fn != main.fr.fn || lc.header != main.header {
			return
		}
		new := grown(x, lc, next)
		pos := p.pos(fr.fn.Pos())
		// the bytes this turn has looked at
		type looked struct {
			at *Poly
			ch byte
			is bool
		}
		var ls []looked
		for l, b := range x.lits {
			if l.op != OpBin || l.aux != "==" {
				continue
			}
			for i := range l.args {
				c, ok := l.args[i].intVal()
				o := l.args[1-i]
				if !ok || o.op != OpLoad || c < 0 || c > 127 {
					continue
				}
				if a := o.args[0]; a.op == OpIndexAddr {
					ls = append(ls, looked{x.substPoly(x.ts.Poly(a.args[1])), byte(c), b})
				}
			}
		}
		for _, t := range new {
			d := x.dynType(t)
			if d == nil {
				continue
			}
			name := typeName(d)
			text := ""
			for s, n := range opText {
				if n == name {
					text = s
				}
			}
			v := x.find(t)
			if v.op == OpIface {
				v = x.find(v.args[0])
			}
			st, ok := d.Underlying().(*types.Struct)
			if !ok || st.NumFields() == 0 {
				continue
			}
			pt := st.Field(0).Type()
			if _, ok := pt.Underlying().(*types.Struct); !ok {
				continue
			}
			posn := x.Field(v, d, 0)
			start, end := x.Field(posn, pt, 0), x.Field(posn, pt, 1)
			at := func(k int64, ch byte) tri {
				res := unknown
				for _, l := range ls {
					c, ok := l.at.add(x.substPoly(x.ts.Poly(start)), -1).konst()
					if !ok || c != k {
						continue
					}
					if l.is {
						if l.ch == ch {
							return yes
						}
						res = no
					} else if l.ch == ch {
						res = no
					}
				}
				if res == unknown && k > 0 {
					// the end of the source
					for l, b := range x.lits {
						if !b && l.op == OpBin && l.aux == "<" {
							if c, ok := x.substPoly(x.ts.Poly(l.args[0]).add(x.ts.Poly(start), -1)).konst(); ok && c <= k {
								return no
							}
						}
					}
				}
				return res
			}
			if text == "" {
				// other tokens do not begin like an operator
				for s := range opText {
					if len(s) == 1 && at(0, s[0]) == yes {
						r.ob("token", "text "+s, false, pos, "the text %q may become a token of kind %s", s, name)
					}
				}
				continue
			}
			seen[name] = true
			ok = true
			why := ""
			for i := range text {
				if at(int64(i), text[i]) != yes {
					ok, why = false, fmt.Sprintf("byte %d of its text is not %q on some path", i, text[i])
				}
			}
			for s, n := range opText {
				if len(s) == len(text)+1 && strings.HasPrefix(s, text) && at(int64(len(text)), s[len(text)]) != no {
					ok, why = false, fmt.Sprintf("its text may be %q, which is %s", s, n)
				}
			}
			n := int64(len(text))
			if c, k := x.substPoly(x.ts.Poly(end).add(x.ts.Poly(start), -1)).konst(); !k || c != n-1 {
				ok, why = false, "it does not cover its own text"
			}
			moved := false
			for a, c := range x.mem {
				if cellField(a, "idx") && c.v != nil {
					if d, k := x.substPoly(x.ts.Poly(c.v).add(x.ts.Poly(start), -1)).konst(); k && d == n {
						moved = true
					}
				}
			}
			if !moved {
				ok, why = false, "the next token does not begin behind it"
			}
			r.ob("token", name, ok, pos, "operator token %s (%s): %s", name, text, why)
		}
	}
	x := newExec(p, h)
	x.run(f, x.params(f), func(fr *Frame, res *Term) {})
	r.done(x, "tokens")
	for s, n := range opText {
		r.ob("token", n, seen[n], p.pos(f.Pos()), "the text %q never becomes token %s", s, n)
	}
}

// checkGrammar: the tree has the shape the precedences ask for.
func checkGrammar(p *Prog, r *Report) {
	f := p.fn(pkgAst, "buildExpr")
	if f == nil {
		r.missing("the function that builds expression trees")
		return
	}
	var bin *types.Named = p.named(pkgAst, "BinaryExpr")
	un := p.named(pkgAst, "UnaryExpr")
	if bin == nil || un == nil {
		r.missing("the nodes of binary and unary expressions")
		return
	}
	opIface := p.named(pkgTok, "Operator")
	calls := func(t *Term) bool {
		return t.op == OpCall && strings.SplitN(t.aux, "#", 2)[0] == p.fname(f)
	}
	// the operand read by the call of a literal
	operandOf := func(x *Exec, t *Term) *Term {
		t = x.find(t)
		if t.op == OpExtract && t.aux == "0" && calls(x.find(t.args[0])) {
			return x.find(t.args[0])
		}
		return nil
	}
	// tokAt returns the place in the stream of a token.
	tokAt := func(x *Exec, t *Term) *Term {
		t = x.find(t)
		for t.op == OpAssert || t.op == OpIface {
			t = x.find(t.args[0])
		}
		if t.op == OpLoad && x.find(t.args[0]).op == OpIndexAddr {
			return x.find(t.args[0]).args[1]
		}
		return nil
	}
	var left, ctx *Term
	idx := func(x *Exec) *Term {
		for a, c := range x.mem {
			if cellField(a, "idx") && x.same(a.args[0], ctx) {
				return c.v
			}
		}
		return nil
	}
	var top *loopCtx
	var exprPhi *ssa.Phi
	binding := func(x *Exec, op *Term) bool {
		if x.truth(x.ts.Bin(token.EQL, left, x.ts.Nil(), false)) == yes {
			return true
		}
		for l, b := range x.lits {
			if b && l.op == OpBin && l.aux == "<" && isPrec(x, l.args[0], left) && isPrec(x, l.args[1], op) {
				return true
			}
		}
		return false
	}
	loose := func(x *Exec) bool {
		for l, b := range x.lits {
			if !b && l.op == OpBin && l.aux == "<" && isPrec(x, l.args[0], left) && l.args[1].op == OpCall && strings.HasSuffix(l.args[1].aux, "Operator.Precedence") {
				return true
			}
		}
		return false
	}
	inMain := func(fr *Frame) bool { return top != nil && fr.fn == f }
	h := Hooks{}
	h.OpaqueCall = func(x *Exec, g *ssa.Function, args []*Term) bool { return g == f }
	h.Call = func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term) {
		if callee != f {
			return
		}
		pos := p.pos(in.Pos())
		op := x.find(args[1])
		key := p.fname(fr.fn)
		switch {
		case op.op == OpNil:
			r.ob("operand", key+" whole", fr.fn != f, pos, "an operand of a binary operator takes all the operators behind it")
		case op.op == OpIface:
			r.ob("operand", key+" "+typeName(op.typ), fr.fn != f, pos, "an operand is read with an operator that is not there")
		default:
			at := tokAt(x, op)
			i := idx(x)
			ok := at != nil && i != nil && x.samePoly(x.ts.Poly(i), x.ts.Poly(at).add(polyConst(1), 1))
			r.ob("operand", key+" position", ok, pos, "the right operand is not read from right behind its operator")
			if fr.fn == f {
				r.ob("operand", key+" binds", binding(x, op), pos, "an operator that does not bind tighter than the one on the left may take the operand away from it")
			}
		}
	}
	h.LoopEnter = func(x *Exec, fr *Frame, lc *loopCtx) {
		if fr.fn != f {
			return
		}
		top = lc
		for ph := range lc.phi {
			if types.IsInterface(ph.Type()) && isNamed(ph.Type(), pkgAst, "Expr") {
				exprPhi = ph
				v := x.find(lc.entry[ph])
				d := x.dynType(v)
				kind := "nothing"
				if d != nil {
					kind = typeName(d)
				}
				// the first token
				ok := false
				var first string
				for l, b := range x.lits {
					if !b || l.op != OpAssertOk || types.IsInterface(l.typ) || !strings.HasSuffix(structName(l.typ), "tok."+typeName(l.typ)) {
						continue
					}
					if want, is := nodeOf[typeName(l.typ)]; is && tokAt(x, l.args[0]) != nil && lc.known[l] {
						at := tokAt(x, l.args[0])
						if !startOf(at, ctx) {
							continue
						}
						first = typeName(l.typ)
						for _, w := range strings.Fields(want) {
							ok = ok || w == kind
						}
						// a node of its own holds the token
						if ok && (kind == "UnaryExpr" || kind == "ParenExpr") {
							in := v
							if in.op == OpIface {
								in = x.find(in.args[0])
							}
							st := d.Underlying().(*types.Struct)
							var c, op *Term
							for i := 0; i < st.NumFields(); i++ {
								switch st.Field(i).Name() {
								case "X":
									c = operandOf(x, x.Field(in, d, i))
								case "Op":
									op = tokAt(x, x.Field(in, d, i))
								}
							}
							ok = c != nil && (kind == "ParenExpr" || op != nil && x.same(op, at) && (first == "Neg" || x.same(unwrap(x, c.args[1]), unwrap(x, l.args[0]))))
						}
						if st, isS := d.Underlying().(*types.Struct); isS && st.NumFields() == 1 && ok {
							in := v
							if in.op == OpIface {
								in = x.find(in.args[0])
							}
							hold := tokAt(x, x.Field(in, d, 0))
							var i *Term
							for a, c := range lc.pre {
								if cellField(a, "idx") && x.same(a.args[0], ctx) {
									i = c.v
								}
							}
							ok = hold != nil && x.same(hold, at) && i != nil && x.samePoly(x.ts.Poly(i), x.ts.Poly(at).add(polyConst(1), 1))
						}
					}
				}
				r.ob("primary", first+" "+kind, ok, p.pos(fr.fn.Pos()), "an expression that begins with token %s may become %s, or another token", first, kind)
			}
		}
	}
	h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
		pos := p.pos(fr.fn.Pos())
		if fr.fn == f && lc == top && exprPhi != nil {
			v := x.find(next[exprPhi])
			ok := false
			if d := x.dynType(v); d != nil && types.Identical(d, bin) {
				in := v
				if in.op == OpIface {
					in = x.find(in.args[0])
				}
				c := operandOf(x, x.Field(in, bin, 2))
				ok = x.same(x.Field(in, bin, 0), lc.phi[exprPhi]) && c != nil && x.same(c.args[1], x.Field(in, bin, 1))
			}
			r.ob("tree", "binary", ok, pos, "a turn of the loop does not make the binary expression of the expression so far, the operator and the operand behind it")
			return
		}
		// lists of expressions
		var got []*Term
		for l, b := range lc.recs[len(lc.recs)-1].lits {
			if !b || l.op != OpBin || l.aux != "==" {
				continue
			}
			for _, a := range l.args {
				if a.op == OpExtract && a.aux == "1" && calls(x.find(a.args[0])) {
					got = append(got, x.find(a.args[0]))
				}
			}
		}
		new := grown(x, lc, next)
		n := 0
		for _, t := range new {
			for _, c := range got {
				if operandOf(x, t) == c {
					n++
				}
			}
		}
		r.ob("tree", "items of "+p.fname(fr.fn), n == len(got) && len(new) == n && n <= 1, pos, "an expression that was read is not added to the list, or another one is")
	}
	x := newExec(p, h)
	args := x.params(f)
	ctx, left = args[0], args[1]
	if opIface == nil || !types.Identical(f.Params[1].Type(), opIface) {
		r.missing("the operator on the left of an expression")
		return
	}
	x.run(f, args, func(fr *Frame, res *Term) {
		v, err := x.extract(res, 0), x.extract(res, 1)
		if x.truth(x.ts.Bin(token.EQL, err, x.ts.Nil(), false)) != yes {
			return
		}
		pos := p.pos(f.Pos())
		if !inMain(fr) || exprPhi == nil {
			r.ob("tree", "result", false, pos, "an expression is complete before the operators behind it were looked at")
			return
		}
		ok := x.same(v, top.phi[exprPhi])
		r.ob("tree", "result", ok, pos, "the expression read is not the one returned")
		stop := loose(x)
		if !stop {
			for l, b := range x.lits {
				if !b && l.op == OpAssertOk && types.Identical(l.typ, opIface) {
					stop = true
				}
			}
		}
		if x.truth(x.ts.Bin(token.EQL, left, x.ts.Nil(), false)) == yes && loose(x) {
			stop = false
		}
		r.ob("tree", "end", stop, pos, "an expression may end in front of an operator that binds tighter than the one on its left")
	})
	r.done(x, "expression trees")
	for _, k := range []string{"operand|internal/ast.buildExpr binds", "tree|binary", "tree|result", "tree|end"} {
		rule, what, _ := strings.Cut(k, "|")
		r.ob(rule, what, r.obs[k] != nil, p.pos(f.Pos()), "no such place was found")
	}
	for t, ns := range nodeOf {
		for _, n := range strings.Fields(ns) {
			r.ob("primary", t+" "+n, r.obs["primary|"+t+" "+n] != nil, p.pos(f.Pos()), "no expression begins with token %s as %s", t, n)
		}
	}
}

func isPrec(x *Exec, t, op *Term) bool {
	return t.op == OpCall && strings.HasSuffix(t.aux, "Operator.Precedence") && len(t.args) == 1 && x.same(t.args[0], op)
}

// loopy tells if a function or one it calls has a loop.
func loopy(f *ssa.Function, depth int) bool {
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				return true
			}
		}
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok && depth < 3 {
				if g := c.Common().StaticCallee(); g != nil && g.Pkg == f.Pkg && g != f && loopy(g, depth+1) {
					return true
				}
			}
		}
	}
	return false
}

// unwrap is the value before conversions between interfaces.
func unwrap(x *Exec, t *Term) *Term {
	t = x.find(t)
	for t.op == OpAssert && types.IsInterface(t.typ) {
		t = x.find(t.args[0])
	}
	return t
}

// startOf tells if the place is the one the context had at the beginning.
func startOf(at, ctx *Term) bool {
	return at.op == OpLoad && at.args[0].op == OpFieldAddr && at.args[0].args[0] == ctx
}
