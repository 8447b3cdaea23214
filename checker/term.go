package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Op is the kind of an abstract value.
type Op uint8

const (
	OpConst Op = iota
	OpNil
	OpZero // zero value of a non basic type
	OpSym  // unknown value
	OpParam
	OpGlobal // address of a global
	OpFunc
	OpClosure
	OpAlloc // address of a fresh object
	OpFieldAddr
	OpIndexAddr
	OpMapSlot
	OpLoad
	OpField
	OpIndex
	OpBin
	OpNot
	OpNeg
	OpConv
	OpIface
	OpAssert   // value of x.(T)
	OpAssertOk // x.(T) succeeds
	OpTuple
	OpExtract
	OpCall
	OpLookup
	OpLookupOk
	OpSlice
	OpStruct
	OpLen
	OpAppend
	OpMap
	OpQuot
)

// Term is a hash consed abstract value.
type Term struct {
	op   Op
	aux  string
	args []*Term
	id   int
	cv   constant.Value
	typ  types.Type // OpIface, OpAssert, OpAssertOk, OpConv, OpAlloc: the type involved
	fn   *ssa.Function
	ser  int // serial number of a fresh object, 0 for pure terms
	poly *Poly
}

type Terms struct {
	tab map[string]*Term
	n   int
	ser int

	quots map[*Term]bool // all quotients made
}

func newTerms() *Terms { return &Terms{tab: map[string]*Term{}, quots: map[*Term]bool{}} }

func (ts *Terms) mk(op Op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(strconv.Itoa(int(op)))
	b.WriteByte('|')
	b.WriteString(aux)
	if typ != nil {
		b.WriteByte('|')
		b.WriteString(types.TypeString(typ, nil))
	}
	for _, a := range args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if t, ok := ts.tab[k]; ok {
		return t
	}
	ts.n++
	t := &Term{op: op, aux: aux, args: args, id: ts.n, typ: typ}
	ts.tab[k] = t
	return t
}

func (ts *Terms) fresh(op Op, name string, typ types.Type, args ...*Term) *Term {
	ts.ser++
	t := ts.mk(op, fmt.Sprintf("%s#%d", name, ts.ser), typ, args...)
	t.ser = ts.ser
	return t
}

func (ts *Terms) Const(v constant.Value) *Term {
	t := ts.mk(OpConst, fmt.Sprint(v.Kind())+":"+v.ExactString(), nil)
	t.cv = v
	return t
}
func (ts *Terms) Int(i int64) *Term { return ts.Const(constant.MakeInt64(i)) }
func (ts *Terms) Bool(b bool) *Term { return ts.Const(constant.MakeBool(b)) }
func (ts *Terms) Str(s string) *Term {
	return ts.Const(constant.MakeString(s))
}
func (ts *Terms) Nil() *Term { return ts.mk(OpNil, "", nil) }

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool {
	return t.op == OpConst && t.cv.Kind() == constant.Bool && constant.BoolVal(t.cv)
}
func (t *Term) isFalse() bool {
	return t.op == OpConst && t.cv.Kind() == constant.Bool && !constant.BoolVal(t.cv)
}
func (t *Term) strVal() (string, bool) {
	if t.op == OpConst && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}
func (t *Term) intVal() (int64, bool) {
	if t.op == OpConst && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}

// contains reports whether any subterm satisfies f.
func (t *Term) contains(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(*Term) bool
	rec = func(x *Term) bool {
		if seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, a := range x.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) has(u *Term) bool { return t.contains(func(x *Term) bool { return x == u }) }

func shortType(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) String() string {
	as := func() string {
		var s []string
		for _, a := range t.args {
			s = append(s, a.String())
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case OpConst:
		return t.cv.String()
	case OpNil:
		return "nil"
	case OpZero:
		return "zero(" + t.aux + ")"
	case OpSym, OpParam, OpGlobal, OpFunc, OpAlloc, OpMap:
		return t.aux
	case OpFieldAddr, OpField:
		_, f, _ := strings.Cut(t.aux, ":")
		return t.args[0].String() + "." + f
	case OpIndexAddr, OpIndex, OpMapSlot, OpLookup:
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	case OpLoad:
		return "*" + t.args[0].String()
	case OpBin:
		return "(" + t.args[0].String() + " " + t.aux + " " + t.args[1].String() + ")"
	case OpNot:
		return "!" + t.args[0].String()
	case OpNeg:
		return "-" + t.args[0].String()
	case OpConv:
		return t.aux + "(" + as() + ")"
	case OpIface:
		return t.args[0].String()
	case OpAssert:
		return t.args[0].String() + ".(" + shortType(t.typ) + ")"
	case OpAssertOk:
		return "(" + t.args[0].String() + " is " + shortType(t.typ) + ")"
	case OpExtract:
		return t.args[0].String() + "." + t.aux
	case OpCall, OpClosure:
		return t.aux + "(" + as() + ")"
	case OpLen:
		return "len(" + as() + ")"
	case OpAppend:
		return "append(" + as() + ")"
	case OpLookupOk:
		return "(" + t.args[1].String() + " in " + t.args[0].String() + ")"
	case OpStruct:
		return "{" + as() + "}"
	case OpQuot:
		return "(" + t.args[0].String() + " div " + t.args[1].String() + ")"
	}
	return fmt.Sprintf("op%d(%s)", t.op, as())
}

// Poly is the normal form of an integer valued term: a sum of monomials over atoms.
type Poly struct {
	m map[string]monomial
}

type monomial struct {
	atoms []*Term // sorted by id
	c     int64
}

func monKey(as []*Term) string {
	var b strings.Builder
	for _, a := range as {
		b.WriteString(strconv.Itoa(a.id))
		b.WriteByte('.')
	}
	return b.String()
}

func polyConst(c int64) *Poly {
	p := &Poly{m: map[string]monomial{}}
	if c != 0 {
		p.m[""] = monomial{nil, c}
	}
	return p
}
func polyAtom(t *Term) *Poly {
	as := []*Term{t}
	return &Poly{m: map[string]monomial{monKey(as): {as, 1}}}
}
func (p *Poly) add(q *Poly, k int64) *Poly {
	r := &Poly{m: make(map[string]monomial, len(p.m)+len(q.m))}
	for key, v := range p.m {
		r.m[key] = v
	}
	for key, v := range q.m {
		c := r.m[key].c + k*v.c
		if c == 0 {
			delete(r.m, key)
		} else {
			r.m[key] = monomial{v.atoms, c}
		}
	}
	return r
}
func (p *Poly) mul(q *Poly) *Poly {
	r := polyConst(0)
	for _, a := range p.m {
		for _, b := range q.m {
			as := append(append([]*Term{}, a.atoms...), b.atoms...)
			sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
			k := monKey(as)
			c := r.m[k].c + a.c*b.c
			if c == 0 {
				delete(r.m, k)
			} else {
				r.m[k] = monomial{as, c}
			}
		}
	}
	return r
}
func (p *Poly) konst() (int64, bool) {
	if len(p.m) == 0 {
		return 0, true
	}
	if len(p.m) == 1 {
		if v, ok := p.m[""]; ok {
			return v.c, true
		}
	}
	return 0, false
}
func (p *Poly) key() string {
	ks := make([]string, 0, len(p.m))
	for k, v := range p.m {
		ks = append(ks, k+"*"+strconv.FormatInt(v.c, 10))
	}
	sort.Strings(ks)
	return strings.Join(ks, "+")
}
func (p *Poly) equal(q *Poly) bool { return len(p.add(q, -1).m) == 0 }

// split returns the polynomial without its constant, with positive leading
// coefficient, the constant, and whether signs were flipped.
func (p *Poly) split() (q *Poly, c int64, neg bool) {
	c = p.m[""].c
	q = p.add(polyConst(c), -1)
	var lead string
	first := true
	for k := range q.m {
		if first || k < lead {
			lead, first = k, false
		}
	}
	if !first && q.m[lead].c < 0 {
		return polyConst(0).add(q, -1), -c, true
	}
	return q, c, false
}
func (p *Poly) String() string {
	if len(p.m) == 0 {
		return "0"
	}
	var ss []string
	for _, v := range p.m {
		var as []string
		for _, a := range v.atoms {
			as = append(as, a.String())
		}
		if len(as) == 0 {
			ss = append(ss, strconv.FormatInt(v.c, 10))
		} else if v.c == 1 {
			ss = append(ss, strings.Join(as, "*"))
		} else {
			ss = append(ss, strconv.FormatInt(v.c, 10)+"*"+strings.Join(as, "*"))
		}
	}
	sort.Strings(ss)
	return strings.Join(ss, " + ")
}

// Poly returns the integer normal form of t.
func (ts *Terms) Poly(t *Term) *Poly {
	if t.poly != nil {
		return t.poly
	}
	p := ts.poly0(t)
	t.poly = p
	return p
}

func (ts *Terms) poly0(t *Term) *Poly {
	switch t.op {
	case OpConst:
		if i, ok := t.intVal(); ok {
			return polyConst(i)
		}
		if t.cv.Kind() == constant.Float {
			if f := constant.ToInt(t.cv); f.Kind() == constant.Int {
				if i, ok := constant.Int64Val(f); ok {
					return polyConst(i)
				}
			}
		}
	case OpNeg:
		return polyConst(0).add(ts.Poly(t.args[0]), -1)
	case OpConv:
		if t.aux == "toint" || t.aux == "tofloat" {
			// int(math.Ceil(a/b)), int(math.Floor(a/b)), int(float(x)), float(x)
			x := t.args[0]
			if t.aux == "tofloat" {
				return ts.Poly(x)
			}
			if x.op == OpCall && (x.aux == "math.Ceil" || x.aux == "math.Floor") {
				y := x.args[0]
				if y.op == OpBin && y.aux == "/" {
					n, d := ts.Poly(y.args[0]), ts.Poly(y.args[1])
					if x.aux == "math.Ceil" {
						n = n.add(d, 1).add(polyConst(1), -1)
					}
					return ts.quotKind(n, d, "floor")
				}
			}
			if x.op == OpConv || x.op == OpBin {
				return ts.Poly(x)
			}
		}
	case OpBin:
		x, y := t.args[0], t.args[1]
		switch t.aux {
		case "+":
			return ts.Poly(x).add(ts.Poly(y), 1)
		case "-":
			return ts.Poly(x).add(ts.Poly(y), -1)
		case "*":
			return ts.Poly(x).mul(ts.Poly(y))
		case "i/":
			return ts.quot(ts.Poly(x), ts.Poly(y))
		case "%":
			p, q := ts.Poly(x), ts.Poly(y)
			return p.add(q.mul(ts.quot(p, q)), -1)
		case "<<":
			if k, ok := y.intVal(); ok && k >= 0 && k < 62 {
				return ts.Poly(x).mul(polyConst(1 << uint(k)))
			}
		}
	}
	return polyAtom(t)
}

// polyTerm returns a term that stands for p.
func (ts *Terms) polyTerm(p *Poly) *Term {
	if c, ok := p.konst(); ok {
		return ts.Int(c)
	}
	if len(p.m) == 1 {
		for _, v := range p.m {
			if v.c == 1 && len(v.atoms) == 1 {
				return v.atoms[0]
			}
		}
	}
	var mons []monomial
	for _, v := range p.m {
		mons = append(mons, v)
	}
	sort.Slice(mons, func(i, j int) bool { return monKey(mons[i].atoms) < monKey(mons[j].atoms) })
	var sum *Term
	for _, v := range mons {
		var x *Term
		if v.c != 1 || len(v.atoms) == 0 {
			x = ts.Int(v.c)
		}
		for _, a := range v.atoms {
			if x == nil {
				x = a
			} else {
				x = ts.mk(OpBin, "*", nil, x, a)
			}
		}
		if sum == nil {
			sum = x
		} else {
			sum = ts.mk(OpBin, "+", nil, sum, x)
		}
	}
	return sum
}

// quot is integer division, with multiples of the divisor pulled out:
// (n + k*d)/d = n/d + k when rounding down.
func (ts *Terms) quot(n, d *Poly) *Poly { return ts.quotKind(n, d, "") }

// quotKind: kind "" truncates, kind "floor" rounds down.
func (ts *Terms) quotKind(n, d *Poly, kind string) *Poly {
	if c, ok := d.konst(); ok && c != 0 {
		if k, ok := n.konst(); ok {
			q := k / c
			if kind == "floor" && k%c != 0 && (k < 0) != (c < 0) {
				q--
			}
			return polyConst(q)
		}
		if c == 1 {
			return n
		}
	}
	out := polyConst(0)
	if len(d.m) == 1 {
		var dm monomial
		for _, v := range d.m {
			dm = v
		}
		rest := polyConst(0)
		for k, v := range n.m {
			if cof, ok := divMon(v, dm); ok {
				out = out.add(&Poly{m: map[string]monomial{monKey(cof.atoms): cof}}, 1)
			} else {
				rest.m[k] = v
			}
		}
		if len(rest.m) == 0 {
			return out
		}
		// Truncation depends on the sign of the whole.
		if kind == "floor" {
			n = rest
		} else {
			out = polyConst(0)
		}
	}
	if len(n.m) == 0 {
		return out
	}
	q := ts.mk(OpQuot, kind, nil, ts.polyTerm(n), ts.polyTerm(d))
	ts.quots[q] = true
	return out.add(polyAtom(q), 1)
}

func divMon(a, d monomial) (monomial, bool) {
	if d.c == 0 || a.c%d.c != 0 {
		return monomial{}, false
	}
	left := append([]*Term{}, a.atoms...)
	for _, x := range d.atoms {
		found := false
		for i, y := range left {
			if x == y {
				left = append(left[:i], left[i+1:]...)
				found = true
				break
			}
		}
		if !found {
			return monomial{}, false
		}
	}
	return monomial{left, a.c / d.c}, true
}

// Bin builds a binary operation with constant folding.
func (ts *Terms) Bin(op token.Token, x, y *Term, isInt bool) *Term {
	switch op {
	case token.EQL, token.NEQ:
		if r, ok := ts.eqConst(x, y); ok {
			return ts.Bool(r == (op == token.EQL))
		}
	}
	if x.isConst() && y.isConst() {
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return ts.Bool(constant.Compare(x.cv, op, y.cv))
		case token.SHL, token.SHR:
			if k, ok := y.intVal(); ok && k >= 0 && k < 256 && x.cv.Kind() == constant.Int {
				return ts.Const(constant.Shift(x.cv, op, uint(k)))
			}
		case token.QUO:
			if isInt {
				if c, ok := y.intVal(); ok && c != 0 {
					return ts.Const(constant.BinaryOp(x.cv, token.QUO_ASSIGN, y.cv))
				}
			}
		case token.REM:
			if c, ok := y.intVal(); ok && c != 0 {
				return ts.Const(constant.BinaryOp(x.cv, op, y.cv))
			}
		case token.ADD, token.SUB, token.MUL:
			if x.cv.Kind() == y.cv.Kind() {
				return ts.Const(constant.BinaryOp(x.cv, op, y.cv))
			}
		}
	}
	name := op.String()
	if op == token.QUO && isInt {
		name = "i/"
	}
	switch op {
	case token.NEQ:
		return ts.Not(ts.mk(OpBin, "==", nil, order(x, y)...))
	case token.EQL:
		return ts.mk(OpBin, "==", nil, order(x, y)...)
	case token.GTR:
		return ts.mk(OpBin, "<", nil, y, x)
	case token.GEQ:
		return ts.Not(ts.mk(OpBin, "<", nil, x, y))
	case token.LEQ:
		return ts.Not(ts.mk(OpBin, "<", nil, y, x))
	}
	return ts.mk(OpBin, name, nil, x, y)
}

func order(x, y *Term) []*Term {
	if x.id > y.id {
		return []*Term{y, x}
	}
	return []*Term{x, y}
}

func (ts *Terms) Not(x *Term) *Term {
	if x.isTrue() {
		return ts.Bool(false)
	}
	if x.isFalse() {
		return ts.Bool(true)
	}
	if x.op == OpNot {
		return x.args[0]
	}
	return ts.mk(OpNot, "", nil, x)
}

// eqConst decides x == y when it can be decided from the terms alone.
func (ts *Terms) eqConst(x, y *Term) (bool, bool) {
	if x == y && x.op != OpSym {
		return true, true
	}
	if x == y {
		return true, true
	}
	if x.isConst() && y.isConst() {
		if x.cv.Kind() == y.cv.Kind() {
			return constant.Compare(x.cv, token.EQL, y.cv), true
		}
		return false, true
	}
	nn := func(a, b *Term) bool { return a.op == OpNil && neverNil(b) }
	if nn(x, y) || nn(y, x) {
		return false, true
	}
	return false, false
}

func neverNil(t *Term) bool {
	switch t.op {
	case OpIface, OpAlloc, OpFunc, OpClosure, OpFieldAddr, OpIndexAddr, OpMap, OpGlobal, OpConst, OpStruct:
		return true
	case OpCall:
		return t.aux == "fmt.Errorf" || t.aux == "errors.New"
	case OpSlice:
		return t.args[0].op == OpAlloc
	case OpAppend:
		return len(t.args) > 1
	}
	return false
}
