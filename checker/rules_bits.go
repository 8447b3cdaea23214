package main

import (
	"go/types"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Conversions a value takes on its way into an attribute: an integer becomes a
// bit string, a bit string of the source one of the result.

var bitsOf = map[byte]int64{'b': 1, 'o': 3, 'x': 4}
var sprintfBits = regexp.MustCompile(`^([box])"%0\*([boxX])"$`)

// checkConversions judges the functions that convert values.
func checkConversions(p *Prog, r *Report) {
	bitStr := func(t types.Type) bool {
		n, ok := t.(*types.Named)
		return ok && n.Obj().Name() == "BitStr" && (isNamed(t, pkgVal, "BitStr") || isNamed(t, pkgTypes, "BitStr"))
	}
	for _, f := range p.funcs {
		s := f.Signature
		if f.Parent() != nil || f.Name() == "init" || len(f.Blocks) == 0 || s.Results().Len() == 0 {
			continue
		}
		q := func(i int) types.Type { return f.Params[i].Type() }
		switch {
		case len(f.Params) == 2 && isNamed(q(0), pkgVal, "Int") && isInteger(q(1)) && bitStr(s.Results().At(0).Type()):
			walkIntToBits(p, r, f)
		case len(f.Params) == 1 && bitStr(q(0)) && s.Results().Len() == 1 && f.Name() == "BitWidth":
			walkBitWidth(p, r, f)
		case len(f.Params) == 1 && s.Recv() != nil && isNamed(q(0), pkgTypes, "SingleRange") && f.Name() == "BitWidth":
			walkRangeWidth(p, r, f)
		case len(f.Params) == 1 && bitStr(q(0)) && s.Recv() == nil && s.Results().Len() == 1 && isNamed(s.Results().At(0).Type(), pkgTypes, "BitStr"):
			walkSameBits(p, r, f)
		case len(f.Params) == 1 && isString(q(0)) && s.Recv() == nil && s.Results().Len() == 2 && isNamed(s.Results().At(0).Type(), pkgVal, "BitStr"):
			walkLiteral(p, r, f)
		}
	}
	r.floor("conversion", 8)
}

// firstChar: the character at the start of text the path is about.
func firstChar(x *Exec, text *Term) (byte, bool) {
	for l, v := range x.lits {
		if !v || l.op != OpBin || l.aux != "==" {
			continue
		}
		for i := range l.args {
			a := l.args[1-i]
			c, ok := l.args[i].intVal()
			if !ok || a.op != OpIndex || len(a.args) < 2 || peel(x.find(a.args[0])) != text {
				continue
			}
			if n, ok := a.args[1].intVal(); ok && n == 0 {
				return byte(c), true
			}
		}
	}
	return 0, false
}

// walkBitWidth: as many bits as the characters between the quotes stand for.
func walkBitWidth(p *Prog, r *Report, f *ssa.Function) {
	x := newExec(p, Hooks{})
	ps := x.params(f)
	what := p.fname(f)
	x.run(f, ps, func(fr *Frame, res *Term) {
		c, ok := firstChar(x, peel(x.find(ps[0])))
		k := bitsOf[c]
		if !ok || k == 0 {
			return
		}
		n := x.length(ps[0])
		want := x.ts.Poly(n).mul(polyConst(k)).add(polyConst(3*k), -1)
		r.ob("conversion", what+" "+string(c), x.samePoly(x.ts.Poly(res), want), p.pos(f.Pos()), "a character of a bit string of kind %c stands for %d bits, the width is taken to be %s", c, k, short(res))
	})
	r.done(x, what)
}

// walkSameBits: the bit string of the result is that of the source.
func walkSameBits(p *Prog, r *Report, f *ssa.Function) {
	x := newExec(p, Hooks{})
	ps := x.params(f)
	what := p.fname(f)
	x.run(f, ps, func(fr *Frame, res *Term) {
		r.ob("conversion", what, x.same(peel(x.find(res)), peel(x.find(ps[0]))), p.pos(f.Pos()), "the bit string is changed: %s", short(res))
	})
	r.done(x, what)
}

// textParts lists the parts of a text.
func textParts(x *Exec, t *Term, out []*Term) []*Term {
	t = peel(x.find(t))
	if t.op == OpBin && t.aux == "+" {
		return textParts(x, t.args[1], textParts(x, t.args[0], out))
	}
	return append(out, t)
}

// walkLiteral: a literal keeps its characters, and its kind in lower case.
func walkLiteral(p *Prog, r *Report, f *ssa.Function) {
	x := newExec(p, Hooks{})
	ps := x.params(f)
	what := p.fname(f)
	x.run(f, ps, func(fr *Frame, res *Term) {
		if !succeeded(x, f, res) {
			return
		}
		c, ok := firstChar(x, peel(x.find(ps[0])))
		if ok && bitsOf[c|0x20] == 0 {
			r.bad("conversion", what, p.pos(f.Pos()), "bit literals of kind %c are accepted", c)
			return
		}
		l := textParts(x, x.extract(res, 0), nil)
		if len(l) != 2 || l[1].op != OpSlice {
			return // built in another way
		}
		k, isK := l[0].strVal()
		if !isK || len(k) != 1 {
			return
		}
		from, isInt := l[1].args[1].intVal()
		whole := peel(x.find(l[1].args[0])) == peel(x.find(ps[0])) && isInt && from == 1 && (l[1].args[2].op == OpNil || x.same(l[1].args[2], x.length(ps[0])))
		r.ob("conversion", what+" "+k, whole && (!ok || k[0] == c|0x20), p.pos(f.Pos()), "a bit literal starting with %c becomes %s", c, short(x.extract(res, 0)))
	})
	r.done(x, what)
}

// pow2 gives the exponent of a power of two.
func pow2(x *Exec, t *Term) *Term {
	unfloat := func(e *Term) *Term {
		e = x.find(e)
		if e.op == OpConv && e.aux == "tofloat" {
			return e.args[0]
		}
		return nil
	}
	switch {
	case t.op == OpConv && t.aux == "toint":
		c := x.find(t.args[0])
		switch {
		case c.op != OpCall:
		case baseName(c) == "math.Pow" && len(c.args) == 2:
			if b, ok := x.find(c.args[0]).intVal(); ok && b == 2 || isFloatTwo(x.find(c.args[0])) {
				return unfloat(c.args[1])
			}
		case baseName(c) == "math.Exp2":
			return unfloat(c.args[0])
		}
	case t.op == OpBin && t.aux == "<<":
		if c, ok := x.find(t.args[0]).intVal(); ok && c == 1 {
			return x.find(t.args[1])
		}
	}
	return nil
}

func isFloatTwo(t *Term) bool { return t.cv != nil && t.cv.ExactString() == "2" }

func walkIntToBits(p *Prog, r *Report, f *ssa.Function) {
	x := newExec(p, Hooks{})
	ps := x.params(f)
	what := p.fname(f)
	v, width := ps[0], ps[1]
	pv := x.ts.Poly(v)
	one := polyConst(1)
	x.run(f, ps, func(fr *Frame, res *Term) {
		var tops, lows []*Poly // 2^width, 2^(width-1)
		powers, both := 0, false
		for l := range x.lits {
			if l.has(v) && l.has(width) {
				both = true
			}
			l.contains(func(t *Term) bool {
				e := pow2(x, t)
				if e == nil {
					return false
				}
				powers++
				if x.same(e, width) {
					tops = append(tops, x.ts.Poly(t))
				} else if x.samePoly(x.ts.Poly(e), x.ts.Poly(width).add(one, -1)) {
					lows = append(lows, x.ts.Poly(t))
					tops = append(tops, x.ts.Poly(t).mul(polyConst(2)))
				}
				return false
			})
		}
		any := func(l []*Poly, f func(q *Poly) *Poly) bool {
			for _, q := range l {
				if x.provesLE0(f(q)) {
					return true
				}
			}
			return false
		}
		above := func() bool { return any(tops, func(q *Poly) *Poly { return q.add(pv, -1) }) }
		below := func() bool { return any(lows, func(q *Poly) *Poly { return pv.add(q, 1).add(one, 1) }) }
		if !succeeded(x, f, res) {
			if powers > 0 {
				r.ob("conversion", what+" rejected", above() || below(), p.pos(f.Pos()), "a value that fits the width may be rejected")
			}
			return
		}
		neg := x.provesLE0(pv.add(one, 1))
		pos := x.provesLE0(polyConst(0).add(pv, -1))
		if !neg && (powers > 0 || !both) {
			ok := any(tops, func(q *Poly) *Poly { return pv.add(q, -1).add(one, 1) })
			r.ob("conversion", what+" too large", ok, p.pos(f.Pos()), "a value that does not fit the width is not rejected")
		}
		if !pos && (powers > 0 || !both) {
			ok := any(lows, func(q *Poly) *Poly { return polyConst(0).add(pv, -1).add(q, -1) })
			r.ob("conversion", what+" too small", ok, p.pos(f.Pos()), "a negative value that does not fit the width is not rejected")
		}
		x.bitText(r, p.pos(f.Pos()), what, x.extract(res, 0), v, width)
	})
	r.done(x, what)
}

// bitText judges the characters of a bit string made of v.
func (x *Exec) bitText(r *Report, pos, what string, t, v, width *Term) {
	divides := func(k int64) bool {
		if k == 1 {
			return true
		}
		for l, b := range x.lits {
			if !b || l.op != OpBin || l.aux != "==" {
				continue
			}
			for i := range l.args {
				c, ok := l.args[i].intVal()
				m := l.args[1-i]
				if !ok || c != 0 || m.op != OpBin || m.aux != "%" || !x.same(m.args[0], width) {
					continue
				}
				if d, ok := m.args[1].intVal(); ok && d%k == 0 {
					return true
				}
			}
		}
		return false
	}
	l := textParts(x, t, nil)
	if c := l[0]; len(l) == 1 && c.op == OpCall && baseName(c) == "fmt.Sprintf" && len(c.args) > 1 {
		format, ok := x.find(c.args[0]).strVal()
		m := sprintfBits.FindStringSubmatch(format)
		args := x.find(c.args[1]).args
		if !ok || m == nil || len(args) != 2 {
			return
		}
		k := bitsOf[m[1][0]]
		digits := x.ts.polyTerm(x.ts.quot(x.ts.Poly(width), polyConst(k)))
		under := func(t *Term) *Term {
			for t = x.find(t); t.op == OpIface; t = x.find(t.args[0]) {
			}
			return t
		}
		ok = strings.EqualFold(m[1], m[2]) && x.same(under(args[0]), digits) && x.same(under(args[1]), v) && divides(k)
		r.ob("conversion", what+" text "+m[1], ok, pos, "the text of the bit string is not the value in the digits of its kind, as many as the width has: %s", short(t))
		return
	}
	if len(l) != 3 || l[1].op != OpCall {
		return
	}
	k, ok := l[0].strVal()
	if !ok || len(k) != 2 || bitsOf[k[0]] == 0 {
		return
	}
	c := l[1]
	var base *Term
	switch baseName(c) {
	case "(*math/big.Int).Text", "strconv.FormatInt", "strconv.FormatUint":
		base = c.args[1]
	default:
		return
	}
	b, isConst := x.find(base).intVal()
	q, _ := l[2].strVal()
	ok = k[1] == '"' && q == "\"" && (!isConst || b == 1<<bitsOf[k[0]]) && divides(bitsOf[k[0]])
	r.ob("conversion", what+" text "+k[:1], ok, pos, "the text of the bit string is not the value in the digits of its kind: %s", short(t))
	c.args[0].contains(func(t *Term) bool {
		if t.op == OpCall && baseName(t) == "(*math/big.Int).Lsh" && len(t.args) == 3 && c.args[0] == t {
			if n, ok := x.find(t.args[1]).args[0].intVal(); ok && n == 1 {
				r.ob("conversion", what+" complement", x.same(t.args[2], width), pos, "the complement of a negative value is of width %s", short(t.args[2]))
			}
		}
		return false
	})
}

// walkRangeWidth: as many bits as the last value of the range needs.
func walkRangeWidth(p *Prog, r *Report, f *ssa.Function) {
	x := newExec(p, Hooks{})
	ps := x.params(f)
	what := p.fname(f)
	st, ok := f.Params[0].Type().Underlying().(*types.Struct)
	if !ok {
		return
	}
	var end *Term
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "End" {
			end = x.Field(ps[0], f.Params[0].Type(), i)
		}
	}
	if end == nil {
		return
	}
	x.run(f, ps, func(fr *Frame, res *Term) {
		t := peel(x.find(res))
		call := func(t *Term, name string) *Term {
			if t = x.find(t); t.op == OpCall && baseName(t) == name {
				return x.find(t.args[0])
			}
			return nil
		}
		if t.op == OpConv && t.aux == "toint" {
			t = x.find(t.args[0])
		}
		for _, n := range []string{"math.Ceil", "math.Floor"} {
			c := call(t, n)
			if c == nil {
				continue
			}
			l := call(c, "math.Log2")
			if l == nil || l.op != OpConv || l.aux != "tofloat" {
				continue
			}
			ok := n == "math.Ceil" && x.samePoly(x.ts.Poly(l.args[0]), x.ts.Poly(end).add(polyConst(1), 1))
			r.ob("conversion", what, ok, p.pos(f.Pos()), "the width of a range is not that of its last value: %s", short(res))
		}
		for _, n := range []string{"math/bits.Len64", "math/bits.Len"} {
			if a := call(t, n); a != nil {
				r.ob("conversion", what, x.same(peel(a), end), p.pos(f.Pos()), "the width of a range is not that of its last value: %s", short(res))
			}
		}
	})
	r.done(x, what)
}
