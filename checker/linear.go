package main

import (
	"math/big"
	"sort"
)

// Linear reasoning over monomials. The facts p <= 0 of a path are combined by
// an exact simplex: a goal g <= 0 follows when g is at most a sum of facts with
// non-negative weights. Products of facts with quantities that have a known
// lower bound take part when they can help.

// addFact records p <= 0 for entails.
func (x *Exec) addFact(p *Poly) {
	if !x.linear {
		return
	}
	n := len(x.facts)
	x.facts = append(x.facts, p)
	x.trail = append(x.trail, func() { x.facts = x.facts[:n] })
}

// entails tells if p <= 0 follows from the facts of the path.
func (x *Exec) entails(p *Poly) bool {
	if x.provesLE0(p) {
		return true
	}
	p = x.substPoly(p)
	if c, ok := p.konst(); ok {
		return c <= 0
	}
	return x.entailsDepth(p, 1)
}

// entailsEq tells if p = 0 follows.
func (x *Exec) entailsEq(p *Poly) bool {
	p = x.substPoly(p)
	if c, ok := p.konst(); ok {
		return c == 0
	}
	return x.entails(p) && x.entails(polyConst(0).add(p, -1))
}

func (x *Exec) entailsDepth(p *Poly, depth int) bool {
	base := x.baseFacts(p)
	if farkas(base, p) {
		return true
	}
	ext := x.products(base, p)
	if len(ext) > len(base) && farkas(ext, p) {
		return true
	}
	// the goal is false, p >= 1, contradicts the facts
	neg := append(append([]*Poly{}, base...), polyConst(1).add(p, -1))
	if refuted(x.products(neg, p), p) {
		return true
	}
	if depth == 0 {
		return false
	}
	// a # b together with a <= b is a < b
	more := append([]*Poly{}, ext...)
	n := len(more)
	for l, v := range x.lits {
		if v || l.op != OpBin || l.aux != "==" || !x.isNumeric(l.args[0]) || !x.isNumeric(l.args[1]) {
			continue
		}
		d := x.substPoly(x.ts.Poly(l.args[0]).add(x.ts.Poly(l.args[1]), -1))
		if _, k := d.konst(); k || !x.related(d, more, p) {
			continue
		}
		switch {
		case farkas(ext, d):
			more = append(more, d.add(polyConst(1), 1))
		case farkas(ext, polyConst(0).add(d, -1)):
			more = append(more, polyConst(1).add(d, -1))
		}
	}
	if len(more) == n {
		return false
	}
	if farkas(more, p) || farkas(x.products(more, p), p) {
		return true
	}
	neg = append(append([]*Poly{}, more...), polyConst(1).add(p, -1))
	return refuted(x.products(neg, p), p)
}

// follows is a cheaper entails from the given facts.
func (x *Exec) follows(fs []*Poly, p *Poly) bool {
	if x.provesLE0(p) || farkas(fs, p) {
		return true
	}
	neg := append(append([]*Poly{}, fs...), polyConst(1).add(p, -1))
	return refuted(x.products(neg, p), p)
}

// contradicted tells if the facts of the path cannot all hold.
func (x *Exec) contradicted() bool {
	all := polyConst(0)
	for _, f := range x.facts {
		for k, m := range x.substPoly(f).m {
			if k != "" && len(m.atoms) > 0 {
				all = all.add(&Poly{m: map[string]monomial{k: {c: 1, atoms: m.atoms}}}, 1)
			}
		}
	}
	base := x.baseFacts(all)
	return refuted(base, all) || refuted(x.products(base, all), all)
}

// refutes tells if the facts rule out a comparison, without looking at
// products.
func (x *Exec) refutes(c *Term, v bool) bool {
	if c.op != OpBin || c.aux != "<" && (c.aux != "==" || !v) {
		return false
	}
	a, b := x.find(c.args[0]), x.find(c.args[1])
	if !x.isNumeric(a) || !x.isNumeric(b) {
		return false
	}
	d := x.substPoly(x.ts.Poly(a).add(x.ts.Poly(b), -1))
	holds := func(p *Poly) bool {
		if k, ok := p.konst(); ok {
			return k <= 0
		}
		return farkas(x.baseFacts(p), p)
	}
	e := polyConst(0).add(d, -1)
	switch {
	case c.aux == "==":
		return holds(d.add(polyConst(1), 1)) || holds(e.add(polyConst(1), 1))
	case v:
		return holds(e)
	default:
		return holds(d.add(polyConst(1), 1))
	}
}

// related: d shares something with the goal or the facts.
func (x *Exec) related(d *Poly, fs []*Poly, p *Poly) bool {
	ms := map[string]bool{}
	for _, f := range append(append([]*Poly{}, fs...), p) {
		for k := range f.m {
			ms[k] = true
		}
	}
	for k := range d.m {
		if k != "" && !ms[k] {
			return false
		}
	}
	return true
}

// baseFacts are the recorded facts and what is known of the atoms met.
func (x *Exec) baseFacts(goal *Poly) []*Poly {
	var out []*Poly
	seen := map[string]bool{}
	add := func(p *Poly) {
		if c, ok := p.konst(); ok && c <= 0 {
			return
		}
		k := p.key()
		if !seen[k] {
			seen[k] = true
			out = append(out, p)
		}
	}
	for _, f := range x.facts {
		add(x.substPoly(f))
	}
	done := map[*Term]bool{}
	var atoms func(p *Poly)
	quot := func(a *Term, v *Poly) {
		n, d := x.substPoly(x.ts.Poly(a.args[0])), x.substPoly(x.ts.Poly(a.args[1]))
		atoms(n)
		atoms(d)
		pos := x.follows(out, polyConst(1).add(d, -1))
		if !pos {
			return
		}
		nn := a.aux == "floor"
		nonneg := x.follows(out, polyConst(0).add(n, -1))
		if nn || nonneg {
			dq := d.mul(v)
			add(dq.add(n, -1))                                 // d*q <= n
			add(n.add(dq, -1).add(d, -1).add(polyConst(1), 1)) // n <= d*q + d - 1
		}
		if !nn && !nonneg {
			dq := d.mul(v)
			lim := polyConst(1).add(d, -1)
			add(dq.add(n, -1).add(lim, 1))
			add(n.add(dq, -1).add(lim, 1))
		}
		if x.follows(out, v) {
			add(v)
		}
		if one := polyConst(1).add(v, -1); nonneg && x.follows(out, one) {
			add(one)
		} else if nonneg {
			add(polyConst(0).add(v, -1))
		}
	}
	atoms = func(p *Poly) {
		for _, m := range p.m {
			for _, a := range m.atoms {
				if done[a] {
					continue
				}
				done[a] = true
				switch a.op {
				case OpLen:
					add(polyConst(0).add(polyAtom(a), -1))
				case OpQuot:
					quot(a, polyAtom(a))
				}
				if n := x.roundedUp(a); n != nil {
					add(x.substPoly(n).add(polyAtom(a), -1))
				}
				b := x.atomBound(a)
				if b.hasLo {
					add(polyConst(b.lo).add(polyAtom(a), -1))
				}
				if b.hasHi {
					add(polyAtom(a).add(polyConst(b.hi), -1))
				}
			}
		}
	}
	// quotients equated with something else
	var eqd []*Term
	for q := range x.ts.quots {
		if x.find(q) != q {
			eqd = append(eqd, q)
		}
	}
	sort.Slice(eqd, func(i, j int) bool { return eqd[i].id < eqd[j].id })
	for _, q := range eqd {
		quot(q, x.substPoly(polyAtom(q)))
	}
	// facts about quotients bring new atoms
	atoms(goal)
	for i := 0; i < len(out); i++ {
		atoms(out[i])
	}
	return out
}

// products multiplies facts with atoms of known lower bound.
func (x *Exec) products(fs []*Poly, goal *Poly) []*Poly {
	// monomials of degree two or more that matter
	want := map[string]bool{}
	mult := map[*Term]bool{}
	note := func(p *Poly) {
		for k, m := range p.m {
			if len(m.atoms) >= 2 {
				want[k] = true
				for _, a := range m.atoms {
					mult[a] = true
				}
			}
		}
	}
	note(goal)
	for _, f := range fs {
		note(f)
	}
	if len(want) == 0 {
		return fs
	}
	var as []*Term
	for a := range mult {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	type low struct {
		a  *Term
		lo int64
	}
	var ls []low
	for _, a := range as {
		b := x.atomBound(a)
		lo, has := b.lo, b.hasLo && b.lo >= 0
		for _, c := range []int64{1, 0} {
			if has && lo >= c {
				break
			}
			if farkas(fs, polyConst(c).add(polyAtom(a), -1)) {
				lo, has = c, true
				break
			}
		}
		if has {
			ls = append(ls, low{a, lo})
		}
	}
	out := append([]*Poly{}, fs...)
	seen := map[string]bool{}
	for _, f := range out {
		seen[f.key()] = true
	}
	for _, l := range ls {
		p := polyConst(l.lo).add(polyAtom(l.a), -1)
		if !seen[p.key()] {
			seen[p.key()] = true
			out = append(out, p)
		}
	}
	fs = append([]*Poly{}, out...)
	n := len(fs)
	for i := 0; i < n && len(out) < 400; i++ {
		f := fs[i]
		deg := 0
		for _, m := range f.m {
			if len(m.atoms) > deg {
				deg = len(m.atoms)
			}
		}
		if deg > 2 {
			continue
		}
		for _, l := range ls {
			p := f.mul(polyAtom(l.a).add(polyConst(l.lo), -1))
			// every new monomial must be wanted, otherwise it cannot cancel
			ok := true
			for k, m := range p.m {
				if len(m.atoms) >= 2 && !want[k] {
					ok = false
				}
			}
			if ok && !seen[p.key()] {
				seen[p.key()] = true
				out = append(out, p)
			}
		}
	}
	return out
}

// farkas tells if goal <= 0 is a consequence of the facts f <= 0: there are
// weights w >= 0 with goal - sum(w*f) constant and at most 0. Integers: the
// facts and goal >= 1 must be contradictory.
func farkas(facts []*Poly, goal *Poly) bool { return farkasFrom(facts, goal, goal) }

// refuted tells if the facts contradict each other; only those connected with
// p are considered.
func refuted(facts []*Poly, p *Poly) bool { return farkasFrom(facts, polyConst(1), p) }

func farkasFrom(facts []*Poly, goal, from *Poly) bool {
	// only facts connected with the goal
	rows := map[string]int{}
	var keys []string
	use := make([]bool, len(facts))
	var queue []*Poly
	queue = append(queue, from)
	byMon := map[string][]int{}
	for i, f := range facts {
		for k := range f.m {
			if k != "" {
				byMon[k] = append(byMon[k], i)
			}
		}
	}
	for len(queue) > 0 {
		p := queue[0]
		queue = queue[1:]
		for k := range p.m {
			if k == "" {
				continue
			}
			if _, ok := rows[k]; ok {
				continue
			}
			rows[k] = len(keys)
			keys = append(keys, k)
			for _, i := range byMon[k] {
				if !use[i] {
					use[i] = true
					queue = append(queue, facts[i])
				}
			}
		}
	}
	sort.Strings(keys)
	for i, k := range keys {
		rows[k] = i
	}
	var cols []*Poly
	for i, f := range facts {
		if use[i] {
			cols = append(cols, f)
		}
	}
	// sum w_j f_j[k] = goal[k] for every monomial k; sum w_j f_j[1] - s = goal[1] - 0,
	// that is goal[1] <= sum w_j f_j[1] ... goal = sum w f + (goal[1] - sum w f[1]) <= 0.
	// For integers goal <= 0 also follows from goal < 1: the constant may be below 1.
	m := len(keys)
	lp := newSimplex(m, len(cols))
	for j, f := range cols {
		for k, v := range f.m {
			if k == "" {
				lp.obj(j, v.c)
			} else {
				lp.set(rows[k], j, v.c)
			}
		}
	}
	for k, v := range goal.m {
		if k != "" {
			lp.rhs(rows[k], v.c)
		}
	}
	// maximise sum w_j f_j[1]; need >= goal[1] (or > goal[1]-1 for integers)
	best, unbounded, feasible := lp.maximise()
	if !feasible {
		return false
	}
	if unbounded {
		return true
	}
	need := new(big.Rat).SetInt64(goal.m[""].c - 1)
	return best.Cmp(need) > 0
}

// simplex solves max c*w, A w = b, w >= 0 exactly.
type simplex struct {
	m, n int
	a    [][]*big.Rat
	b    []*big.Rat
	c    []*big.Rat
}

func newSimplex(m, n int) *simplex {
	s := &simplex{m: m, n: n}
	for i := 0; i < m; i++ {
		row := make([]*big.Rat, n)
		for j := range row {
			row[j] = new(big.Rat)
		}
		s.a = append(s.a, row)
		s.b = append(s.b, new(big.Rat))
	}
	for j := 0; j < n; j++ {
		s.c = append(s.c, new(big.Rat))
	}
	return s
}
func (s *simplex) set(i, j int, v int64) { s.a[i][j].SetInt64(v) }
func (s *simplex) rhs(i int, v int64)    { s.b[i].SetInt64(v) }
func (s *simplex) obj(j int, v int64)    { s.c[j].SetInt64(v) }

func (s *simplex) maximise() (best *big.Rat, unbounded, feasible bool) {
	m, n := s.m, s.n
	// tableau with artificial variables n..n+m-1
	t := make([][]*big.Rat, m)
	basis := make([]int, m)
	for i := 0; i < m; i++ {
		t[i] = make([]*big.Rat, n+m+1)
		neg := s.b[i].Sign() < 0
		for j := 0; j < n; j++ {
			t[i][j] = new(big.Rat).Set(s.a[i][j])
			if neg {
				t[i][j].Neg(t[i][j])
			}
		}
		for j := 0; j < m; j++ {
			t[i][n+j] = new(big.Rat)
		}
		t[i][n+i].SetInt64(1)
		t[i][n+m] = new(big.Rat).Set(s.b[i])
		if neg {
			t[i][n+m].Neg(t[i][n+m])
		}
		basis[i] = n + i
	}
	w := n + m
	pivot := func(z []*big.Rat, r, c int) {
		p := new(big.Rat).Inv(t[r][c])
		for j := 0; j <= w; j++ {
			if t[r][j].Sign() != 0 {
				t[r][j].Mul(t[r][j], p)
			}
		}
		el := func(row []*big.Rat) {
			if row[c].Sign() == 0 {
				return
			}
			f := new(big.Rat).Set(row[c])
			tmp := new(big.Rat)
			for j := 0; j <= w; j++ {
				if t[r][j].Sign() != 0 {
					tmp.Mul(f, t[r][j])
					row[j].Sub(row[j], tmp)
				}
			}
		}
		for i := range t {
			if i != r {
				el(t[i])
			}
		}
		el(z)
		basis[r] = c
	}
	// run maximises with reduced costs z (z[j] > 0 improves), columns below lim
	run := func(z []*big.Rat, lim int) bool {
		for iter := 0; iter < 5000; iter++ {
			c := -1
			for j := 0; j < lim; j++ {
				if z[j].Sign() > 0 {
					c = j
					break
				}
			}
			if c < 0 {
				return true
			}
			r := -1
			var ratio *big.Rat
			for i := 0; i < m; i++ {
				if t[i][c].Sign() <= 0 {
					continue
				}
				q := new(big.Rat).Quo(t[i][w], t[i][c])
				if r < 0 || q.Cmp(ratio) < 0 || q.Cmp(ratio) == 0 && basis[i] < basis[r] {
					r, ratio = i, q
				}
			}
			if r < 0 {
				return false
			}
			pivot(z, r, c)
		}
		return true
	}
	// phase one: maximise minus the sum of the artificials
	z := make([]*big.Rat, w+1)
	for j := range z {
		z[j] = new(big.Rat)
	}
	for i := 0; i < m; i++ {
		for j := 0; j < n; j++ {
			z[j].Add(z[j], t[i][j])
		}
		z[w].Add(z[w], t[i][w])
	}
	run(z, n)
	for i := 0; i < m; i++ {
		if basis[i] >= n && t[i][w].Sign() != 0 {
			return nil, false, false
		}
	}
	// drive artificials out
	for i := 0; i < m; i++ {
		if basis[i] < n {
			continue
		}
		for j := 0; j < n; j++ {
			if t[i][j].Sign() != 0 {
				pivot(z, i, j)
				break
			}
		}
	}
	z2 := make([]*big.Rat, w+1)
	for j := range z2 {
		z2[j] = new(big.Rat)
		if j < n {
			z2[j].Set(s.c[j])
		}
	}
	tmp := new(big.Rat)
	for i := 0; i < m; i++ {
		if basis[i] >= n || s.c[basis[i]].Sign() == 0 {
			continue
		}
		f := new(big.Rat).Set(s.c[basis[i]])
		for j := 0; j <= w; j++ {
			if t[i][j].Sign() != 0 {
				tmp.Mul(f, t[i][j])
				z2[j].Sub(z2[j], tmp)
			}
		}
	}
	if !run(z2, n) {
		return nil, true, true
	}
	return new(big.Rat).Neg(z2[w]), false, true
}

// roundedUp finds n in the usual ways to write the power of two next to n,
// which are never below n.
func (x *Exec) roundedUp(a *Term) *Poly {
	call := func(t *Term, names ...string) *Term {
		t = x.find(t)
		if t.op == OpCall {
			for _, n := range names {
				if t.aux == n {
					return t
				}
			}
		}
		return nil
	}
	switch {
	case a.op == OpConv && a.aux == "toint":
		// int(math.Pow(2, math.Ceil(math.Log2(float64(n))))), int(math.Exp2(...))
		var e *Term
		if p := call(a.args[0], "math.Pow"); p != nil {
			if c, ok := x.find(p.args[0]).intVal(); !ok || c < 2 {
				return nil
			}
			e = p.args[1]
		} else if p := call(a.args[0], "math.Exp2"); p != nil {
			e = p.args[0]
		} else {
			return nil
		}
		c := call(e, "math.Ceil")
		if c == nil {
			return nil
		}
		l := call(c.args[0], "math.Log2")
		if l == nil {
			return nil
		}
		n := x.find(l.args[0])
		if n.op == OpConv && n.aux == "tofloat" {
			return x.ts.Poly(n.args[0])
		}
	case a.op == OpBin && a.aux == "<<":
		// 1 << bits.Len64(uint64(m)) is above m
		if c, ok := x.find(a.args[0]).intVal(); !ok || c < 1 {
			return nil
		}
		l := call(a.args[1], "math/bits.Len64", "math/bits.Len")
		if l == nil {
			return nil
		}
		return x.ts.Poly(l.args[0]).add(polyConst(1), 1)
	}
	return nil
}
