package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C03: error values. Every error a call answers is followed through the
// control flow graph: it must be compared with nil before the function goes
// on, and where it is not nil the function must fail.

var errorType = types.Universe.Lookup("error").Type()

func isError(t types.Type) bool { return types.Identical(t, errorType) }

// errIndex is the index of the last result of type error, or -1.
func errIndex(sig *types.Signature) int {
	for i := sig.Results().Len() - 1; i >= 0; i-- {
		if isError(sig.Results().At(i).Type()) {
			return i
		}
	}
	return -1
}

// neverReturns tells if a call does not come back.
func (c *errCheck) neverReturns(cc *ssa.CallCommon) bool {
	f := cc.StaticCallee()
	if f == nil {
		return false
	}
	if noReturn(calleeName(c.p, f)) {
		return true
	}
	if !c.p.inRepo(f) || len(f.Blocks) == 0 {
		return false
	}
	if v, ok := c.dead[f]; ok {
		return v
	}
	c.dead[f] = false
	// no reachable return
	res := true
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{f.Blocks[0]}
	for len(work) > 0 && res {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b] {
			continue
		}
		seen[b] = true
		stop := false
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Call:
				stop = stop || c.neverReturns(&in.Call)
			case *ssa.Return:
				if !stop {
					res = false
				}
			}
		}
		if !stop {
			work = append(work, b.Succs...)
		}
	}
	c.dead[f] = res
	return res
}

type errCheck struct {
	p     *Prog
	r     *Report
	dead  map[*ssa.Function]bool
	hand  map[string]string
	never map[*ssa.Function]int // 1: never an error, 2: always, 3: both, 0: not known yet
	sites int
}

// nilness of an error expression: 1 nil, 2 not nil, 3 unknown.
func (c *errCheck) nilness(v ssa.Value, seen map[ssa.Value]bool) int {
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		if v.IsNil() {
			return 1
		}
		return 2
	case *ssa.MakeInterface:
		return 2
	case *ssa.ChangeInterface:
		return c.nilness(v.X, seen)
	case *ssa.Phi:
		r := 0
		for _, e := range v.Edges {
			r |= c.nilness(e, seen)
		}
		return r
	case *ssa.Call:
		return c.callNilness(&v.Call, 0, v.Call.Signature().Results().Len() == 1)
	case *ssa.Extract:
		if cl, ok := v.Tuple.(*ssa.Call); ok {
			return c.callNilness(&cl.Call, v.Index, true)
		}
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if a, ok := v.X.(*ssa.Alloc); ok {
				r := 1
				for _, ref := range *a.Referrers() {
					switch ref := ref.(type) {
					case *ssa.Store:
						if ref.Addr == a {
							r |= c.nilness(ref.Val, seen)
						}
					case *ssa.UnOp, *ssa.DebugRef:
					default:
						return 3
					}
				}
				return r
			}
		}
	}
	return 3
}

func (c *errCheck) callNilness(cc *ssa.CallCommon, idx int, ok bool) int {
	f := cc.StaticCallee()
	if f == nil {
		if cc.IsInvoke() {
			r := 0
			fs := c.p.implementations(cc.Value.Type(), cc.Method)
			for _, f := range fs {
				if !c.p.inRepo(f) {
					return 3
				}
				r |= c.funcNilness(f, idx)
			}
			if len(fs) == 0 {
				return 3
			}
			return r
		}
		return 3
	}
	switch calleeName(c.p, f) {
	case "fmt.Errorf", "errors.New":
		return 2
	}
	if !c.p.inRepo(f) {
		if neverFails(calleeName(c.p, f)) {
			return 1
		}
		return 3
	}
	return c.funcNilness(f, idx)
}

// calls tells whether f calls something that may detect an error.
func (c *errCheck) calls(f *ssa.Function) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			ci, ok := in.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if errIndex(ci.Common().Signature()) < 0 {
				continue
			}
			if g := ci.Common().StaticCallee(); g == nil || calleeName(c.p, g) != "fmt.Errorf" && calleeName(c.p, g) != "errors.New" {
				return true
			}
		}
	}
	return false
}

func (c *errCheck) funcNilness(f *ssa.Function, idx int) int {
	if len(f.Blocks) == 0 {
		return 3
	}
	if f.Synthetic != "" {
		// wrapper or instance: look at its returns as well
	}
	if r, ok := c.never[f]; ok {
		if r == 0 {
			return 3
		}
		return r
	}
	c.never[f] = 0
	r := 0
	for _, b := range f.Blocks {
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && idx < len(ret.Results) {
			r |= c.nilness(spilled(ret, idx), map[ssa.Value]bool{})
		}
	}
	if r == 0 {
		r = 3
	}
	c.never[f] = r
	return r
}

// neverFails lists library calls whose error is always nil.
func neverFails(n string) bool {
	for _, p := range []string{"(*strings.Builder).", "(*bytes.Buffer).Write", "fmt.Fprint", "fmt.Sscan"} {
		if strings.HasPrefix(n, p) && !strings.HasPrefix(n, "fmt.") {
			return true
		}
	}
	return false
}

// Where an error that is a fact of the search path, not of the input, is dropped on purpose.
func (c *errCheck) tolerated(f *ssa.Function, cc *ssa.CallCommon) bool {
	callee := cc.StaticCallee()
	if callee == nil {
		return false
	}
	n := calleeName(c.p, callee)
	// Diagnostics on standard error: there is nowhere to report a failure.
	if strings.HasPrefix(n, "fmt.Fprint") && len(cc.Args) > 0 && isStderr(cc.Args[0]) {
		return true
	}
	if recv := callee.Signature.Recv(); recv != nil {
		s := types.TypeString(recv.Type(), nil)
		if strings.HasSuffix(s, "strings.Builder") || strings.HasSuffix(s, "bytes.Buffer") {
			return true
		}
	}
	if strings.HasPrefix(n, "fmt.Fprint") && len(cc.Args) > 0 {
		if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
			s := types.TypeString(mi.X.Type(), nil)
			if s == "*strings.Builder" || s == "*bytes.Buffer" || strings.HasPrefix(s, "hash") {
				return true
			}
		}
	}
	// Help and version text: nothing has been compiled.
	if strings.HasPrefix(n, "fmt.Print") && inPkg(f, "internal/args") {
		return true
	}
	// The identifier is trimmed to the width it is converted to, see C10.
	if h := hashRoot(c.p); h != nil && len(cc.Args) == 2 && derivesFrom(cc.Args[0], h, map[ssa.Value]bool{}) {
		return true
	}
	return c.discovery(f) && (n == "internal/util.GetDirID" || n == "util.GetDirID" || strings.HasSuffix(n, ".GetDirID") || n == "path/filepath.EvalSymlinks" || n == "filepath.EvalSymlinks")
}

func isStderr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.MakeInterface:
		return isStderr(v.X)
	case *ssa.ChangeInterface:
		return isStderr(v.X)
	case *ssa.UnOp:
		g, ok := v.X.(*ssa.Global)
		return ok && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stderr"
	}
	return false
}

// discovery: f is only reached while packages are searched for.
func (c *errCheck) discovery(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	return inPkg(f, pkgPrs) && reaches(c.p, "DiscoverPackages", f) && !reaches(c.p, "ParsePackages", f)
}

// reaches: the function called name in package prs reaches f.
func reaches(p *Prog, name string, f *ssa.Function) bool {
	root := p.fn(pkgPrs, name)
	if root == nil {
		return false
	}
	return p.reachable(root)[f]
}

// reachable is the set of functions that may be called from f.
func (p *Prog) reachable(fs ...*ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	work := append([]*ssa.Function(nil), fs...)
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if g == nil || seen[g] {
			continue
		}
		seen[g] = true
		for _, b := range g.Blocks {
			work = append(work, p.ownEffects(b, newEffects())...)
		}
	}
	return seen
}

// names is what currently stands for the tracked error: SSA values and variables.
type names map[ssa.Value]bool

func (n names) key() string {
	var s []string
	for v := range n {
		s = append(s, v.Name())
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

const (
	errUnknown = iota
	errIsNil
	errIsSet
)

// follow tracks the error e of call from just behind its definition.
func (c *errCheck) follow(f *ssa.Function, call ssa.Instruction, e ssa.Value, what string) {
	p := c.p
	pos := p.pos(call.Pos())
	ok := true
	bad := func(format string, a ...any) {
		if ok {
			c.r.ob("error-handled", what, false, pos, "the error of %s %s", what, fmt.Sprintf(format, a...))
		}
		ok = false
	}
	idx := 0
	for i, in := range call.Block().Instrs {
		if in == call {
			idx = i + 1
		}
	}
	siblings := map[ssa.Value]bool{}
	if cv, isV := call.(ssa.Value); isV {
		for _, ref := range *cv.Referrers() {
			if ex, isE := ref.(*ssa.Extract); isE && ex != e {
				siblings[ex] = true
			}
		}
	}
	t := &errTrack{c: c, f: f, ok: &ok, again: call}
	t.ret = func(in *ssa.Return, state int, n names) {
		if state == errIsNil {
			return
		}
		if ei := errIndex(f.Signature); ei >= 0 && ei < len(in.Results) {
			res := spilled(in, ei)
			if n[res] || c.nilness(res, map[ssa.Value]bool{}) == 2 || c.builtFrom(res, n) {
				return
			}
		}
		if state == errUnknown {
			bad("is not looked at before the function returns at %s", p.pos(in.Pos()))
		} else {
			bad("does not make the function fail: it returns at %s", p.pos(in.Pos()))
		}
	}
	t.use = func(in ssa.Instruction, state int) {
		if in == call {
			if state != errIsNil {
				bad("is lost when the loop goes on")
			}
		} else if state != errIsNil {
			if u := c.badUse(in, siblings); u != "" {
				bad("is not looked at before the result that came with it is used (%s)", u)
			}
		}
	}
	if !t.run(call.Block(), idx, e) {
		bad("cannot be followed")
	}
	if ok {
		c.r.ob("error-handled", what, true, pos, "")
	}
}

// errTrack walks the control flow graph from the definition of an error.
type errTrack struct {
	c       *errCheck
	f       *ssa.Function
	ok      *bool
	boolean bool            // the tracked value is an answer, false for failure
	again   ssa.Instruction // where the error is defined anew
	ret     func(in *ssa.Return, state int, n names)
	use     func(in ssa.Instruction, state int)
}

func (t *errTrack) run(b0 *ssa.BasicBlock, i0 int, e ssa.Value) bool {
	c := t.c
	seen := map[string]bool{}
	type item struct {
		b     *ssa.BasicBlock
		i     int
		state int
		n     names
	}
	var work []item
	push := func(b *ssa.BasicBlock, i, state int, n names) {
		k := fmt.Sprint(b.Index, ":", i, ":", state, ":", n.key())
		if !seen[k] {
			seen[k] = true
			work = append(work, item{b: b, i: i, state: state, n: n})
		}
	}
	push(b0, i0, errUnknown, names{e: true})
	for len(work) > 0 && *t.ok {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		n := names{}
		for v := range it.n {
			n[v] = true
		}
		state := it.state
		ended := false
		for i := it.i; i < len(it.b.Instrs) && !ended && *t.ok; i++ {
			in := it.b.Instrs[i]
			if t.use != nil {
				t.use(in, state)
			}
			if in == t.again {
				break
			}
			switch in := in.(type) {
			case *ssa.Phi: // handled on the edge
			case *ssa.Store:
				if n[in.Val] {
					if _, isA := in.Addr.(*ssa.Alloc); isA || state != errIsNil {
						n[in.Addr] = true
					}
				} else if n[in.Addr] {
					delete(n, in.Addr)
				}
			case *ssa.UnOp:
				if in.Op == token.MUL && n[in.X] {
					n[in] = true
				}
			case *ssa.ChangeInterface:
				if n[in.X] {
					n[in] = true
				}
			case *ssa.MakeInterface:
				if n[in.X] {
					n[in] = true
				}
			case *ssa.Call:
				if c.neverReturns(&in.Call) {
					ended = true
					break
				}
				if g := in.Call.StaticCallee(); g != nil && c.p.inRepo(g) && len(g.Blocks) > 0 {
					for j, a := range in.Call.Args {
						if !n[a] || j >= len(g.Params) {
							continue
						}
						switch c.handler(g, j) {
						case "fatal":
							if state == errIsSet {
								ended = true
							}
							state = errIsNil
						case "wrap":
							n[in] = true
						}
					}
				}
			case *ssa.Panic:
				ended = true
			case *ssa.Return:
				ended = true
				t.ret(in, state, n)
			case *ssa.If:
				ended = true
				if t.boolean && n[in.Cond] {
					for j, s := range it.b.Succs {
						st := errIsNil
						if j == 1 {
							st = errIsSet
						}
						if state == errUnknown || state == st {
							c.edge(it.b, s, st, n, push)
						}
					}
					break
				}
				if bo, isB := in.Cond.(*ssa.BinOp); isB && (bo.Op == token.NEQ || bo.Op == token.EQL) {
					var other ssa.Value
					if n[bo.X] {
						other = bo.Y
					} else if n[bo.Y] {
						other = bo.X
					}
					if k, isK := other.(*ssa.Const); isK && k.IsNil() {
						for j, s := range it.b.Succs {
							st := errIsNil
							if (bo.Op == token.NEQ) == (j == 0) {
								st = errIsSet
							}
							if state != errUnknown && state != st {
								continue
							}
							c.edge(it.b, s, st, n, push)
						}
						break
					}
				}
				for _, s := range it.b.Succs {
					c.edge(it.b, s, state, n, push)
				}
			case *ssa.Jump:
				ended = true
				c.edge(it.b, it.b.Succs[0], state, n, push)
			}
		}
		if len(seen) > 20000 {
			return false
		}
	}
	return true
}

// handler tells what g does with the error passed as its parameter i: "fatal"
// when it does not return for an error, "wrap" when it answers an error for an
// error and nil for nil.
func (c *errCheck) handler(g *ssa.Function, i int) string {
	k := fmt.Sprint(g.String(), "#", i)
	if v, ok := c.hand[k]; ok {
		return v
	}
	c.hand[k] = ""
	if !isError(g.Params[i].Type()) {
		return ""
	}
	ok := true
	fatal, wrap := true, g.Signature.Results().Len() == 1 && errIndex(g.Signature) == 0
	t := &errTrack{c: c, f: g, ok: &ok}
	t.ret = func(in *ssa.Return, state int, n names) {
		if state != errIsNil {
			fatal = false
		}
		if wrap {
			res := spilled(in, 0)
			nn := c.nilness(res, map[ssa.Value]bool{})
			switch {
			case n[res]:
			case state == errIsNil && nn == 1:
			case state == errIsSet && (nn == 2 || c.builtFrom(res, n)):
			default:
				wrap = false
			}
		}
	}
	if !t.run(g.Blocks[0], 0, g.Params[i]) {
		return ""
	}
	switch {
	case fatal:
		c.hand[k] = "fatal"
	case wrap:
		c.hand[k] = "wrap"
	}
	return c.hand[k]
}

// builtFrom: res is an error made of the tracked one.
func (c *errCheck) builtFrom(res ssa.Value, n names) bool {
	if cl, ok := res.(*ssa.Call); ok {
		for _, a := range cl.Call.Args {
			if n[a] {
				return c.callNilness(&cl.Call, 0, true) == 2
			}
		}
		if f := cl.Call.StaticCallee(); f != nil {
			switch calleeName(c.p, f) {
			case "errors.Join":
				return true
			}
		}
	}
	return false
}

func (c *errCheck) edge(from, to *ssa.BasicBlock, state int, n names, push func(*ssa.BasicBlock, int, int, names)) {
	m := names{}
	for v := range n {
		m[v] = true
	}
	pi := -1
	for i, pr := range to.Preds {
		if pr == from {
			pi = i
		}
	}
	var add, del []ssa.Value
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		if pi >= 0 && n[ph.Edges[pi]] {
			add = append(add, ph)
		} else if n[ph] {
			del = append(del, ph)
		}
	}
	for _, v := range del {
		delete(m, v)
	}
	for _, v := range add {
		m[v] = true
	}
	push(to, 0, state, m)
}

// badUse: in takes something out of a result whose error was not looked at.
func (c *errCheck) badUse(in ssa.Instruction, sib map[ssa.Value]bool) string {
	if len(sib) == 0 {
		return ""
	}
	switch in := in.(type) {
	case *ssa.TypeAssert:
		if sib[in.X] && !in.CommaOk {
			return "type assertion"
		}
	case *ssa.FieldAddr:
		if sib[in.X] {
			return "field access"
		}
	case *ssa.Call:
		if in.Call.IsInvoke() && sib[in.Call.Value] {
			return "method call"
		}
	}
	return ""
}

func checkErrors(p *Prog, r *Report) {
	c := &errCheck{p: p, r: r, dead: map[*ssa.Function]bool{}, never: map[*ssa.Function]int{}, hand: map[string]string{}}
	count := map[string]int{}
	for _, f := range p.funcs {
		if f.Synthetic != "" && f.Parent() == nil && f.Object() == nil || f.Name() == "init" {
			continue
		}
		if f.Synthetic != "" {
			continue
		}
		r.funcs[p.fname(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, isCall := in.(ssa.CallInstruction)
				if !isCall {
					continue
				}
				cc := ci.Common()
				if bi, isB := cc.Value.(*ssa.Builtin); isB {
					if bi.Name() == "recover" {
						r.bad("no-recover", p.fname(f), p.pos(in.Pos()), "%s recovers from crashes, so that errors reported that way are lost", p.fname(f))
					}
					continue
				}
				sig := cc.Signature()
				ei := errIndex(sig)
				if ei < 0 {
					c.boolResult(f, in, cc)
					continue
				}
				name := "a function value"
				if cc.IsInvoke() {
					name = shortType(cc.Value.Type()) + "." + cc.Method.Name()
				} else if g := cc.StaticCallee(); g != nil {
					name = calleeName(p, g)
				}
				key := p.fname(f) + " calls " + name
				count[key]++
				what := key
				if count[key] > 1 {
					what = fmt.Sprintf("%s #%d", key, count[key])
				}
				c.sites++
				// the constructors of errors
				switch name {
				case "fmt.Errorf", "errors.New":
					continue
				}
				if c.callNilness(cc, ei, true) == 1 || c.tolerated(f, cc) {
					r.ob("error-handled", what, true, p.pos(in.Pos()), "")
					continue
				}
				call, isV := in.(*ssa.Call)
				if !isV {
					r.bad("error-handled", what, p.pos(in.Pos()), "the error of a deferred or concurrent call of %s is lost", name)
					continue
				}
				var e ssa.Value
				if sig.Results().Len() == 1 {
					e = call
				} else {
					for _, ref := range *call.Referrers() {
						if ex, isE := ref.(*ssa.Extract); isE && ex.Index == ei {
							e = ex
						}
					}
				}
				if e == nil || len(realRefs(e)) == 0 {
					r.bad("error-handled", what, p.pos(in.Pos()), "the error of %s is discarded", name)
					continue
				}
				if g := cc.StaticCallee(); g != nil && sig.Results().Len() == 1 && c.callNilness(cc, ei, true) == 2 && !c.calls(g) && onlyReturned(e) {
					// an error made of the arguments, for some of the ends of f
					r.okob("error-handled", what, true, "", "")
					continue
				}
				c.follow(f, call, e, what)
			}
		}
	}
	r.ob("no-recover", "program", true, "-", "")
	r.floor("error-handled", 100)
	r.notes = append(r.notes, fmt.Sprintf("%d calls that can answer an error", c.sites))
	r.explain = "every call that answers an error, in every function of the program, is followed along all paths of the control flow graph"
}

// onlyReturned: the value is returned as it is, and nowhere kept.
func onlyReturned(v ssa.Value) bool {
	for _, u := range realRefs(v) {
		if _, ok := u.(*ssa.Return); !ok {
			return false
		}
	}
	return true
}

func realRefs(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok {
			out = append(out, r)
		}
	}
	return out
}

func init() { checks["C03"] = checkErrors }

// derivesFrom: v is computed from the result of a call of f.
func derivesFrom(v ssa.Value, f *ssa.Function, seen map[ssa.Value]bool) bool {
	if v == nil || seen[v] {
		return false
	}
	seen[v] = true
	if cl, ok := v.(*ssa.Call); ok && cl.Call.StaticCallee() == f {
		return true
	}
	in, ok := v.(ssa.Instruction)
	if !ok {
		return false
	}
	for _, op := range in.Operands(nil) {
		if *op != nil && derivesFrom(*op, f, seen) {
			return true
		}
	}
	return false
}

// boolResult: a function of the program that only tells whether it worked must be listened to.
func (c *errCheck) boolResult(f *ssa.Function, in ssa.Instruction, cc *ssa.CallCommon) {
	g := cc.StaticCallee()
	res := cc.Signature().Results()
	if g == nil || !c.p.inRepo(g) || res.Len() != 1 {
		return
	}
	if b, ok := res.At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Bool {
		return
	}
	e := c.p.effectsOf(g)
	if len(e.w) == 0 {
		return
	}
	v, isV := in.(*ssa.Call)
	what := p_caller(c.p, f, g)
	pos := c.p.pos(in.Pos())
	c.r.ob("answer-used", what, isV && len(realRefs(v)) > 0, pos, "%s ignores whether %s worked", c.p.fname(f), calleeName(c.p, g))
	if !isV || !c.addsSymbol(g) {
		return
	}
	ok := true
	t := &errTrack{c: c, f: f, ok: &ok, again: in, boolean: true}
	t.ret = func(ret *ssa.Return, state int, n names) {
		if state == errIsNil {
			return
		}
		for i := range ret.Results {
			res := spilled(ret, i)
			k, isK := res.(*ssa.Const)
			switch {
			case n[res]:
				return
			case isK && isBool(res.Type()) && k.Value != nil && k.Value.String() == "false":
				return
			case isError(res.Type()) && i == errIndex(f.Signature) && c.nilness(res, map[ssa.Value]bool{}) == 2:
				return
			}
		}
		ok = false
		c.r.bad("answer-used", what, pos, "%s goes on although %s did not work", c.p.fname(f), calleeName(c.p, g))
	}
	t.use = func(i ssa.Instruction, state int) {
		if i == in && state != errIsNil {
			ok = false
			c.r.bad("answer-used", what, pos, "%s goes on although %s did not work", c.p.fname(f), calleeName(c.p, g))
		}
	}
	i0 := 0
	for i, x := range v.Block().Instrs {
		if x == in {
			i0 = i + 1
		}
	}
	t.run(v.Block(), i0, v)
}

// addsSymbol: g adds something to a container of the parser.
func (c *errCheck) addsSymbol(g *ssa.Function) bool {
	if !inPkg(g, pkgPrs) {
		return false
	}
	e := c.p.effectsOf(g)
	for k := range e.w {
		if strings.Contains(k, "symbolContainer:") || strings.HasPrefix(k, "c:") && strings.Contains(k, "PropContainer") {
			return true
		}
	}
	return false
}

func p_caller(p *Prog, f, g *ssa.Function) string { return p.fname(f) + " calls " + calleeName(p, g) }

// spilled is result i of a return; functions with deferred calls keep results in variables.
func spilled(ret *ssa.Return, i int) ssa.Value {
	v := ret.Results[i]
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		return v
	}
	b := ret.Block()
	for j := len(b.Instrs) - 1; j >= 0; j-- {
		if st, ok := b.Instrs[j].(*ssa.Store); ok && st.Addr == u.X {
			return st.Val
		}
	}
	return v
}
