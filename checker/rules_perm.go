package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lists whose order means something keep it: a positional argument is bound to
// the parameter at its position. The elements of such a list are neither
// sorted nor exchanged in place.

// copyOf tells whether a list is a private copy.
func copyOf(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Call:
		if f := v.Call.StaticCallee(); f != nil {
			o := f.Origin()
			if o == nil {
				o = f
			}
			return o.Pkg != nil && o.Pkg.Pkg.Path() == "slices" && (o.Name() == "Clone" || o.Name() == "Sorted" || o.Name() == "Collect")
		}
	case *ssa.UnOp:
		// a variable that only ever holds copies
		cell, ok := v.X.(*ssa.Alloc)
		if !ok || v.Op != token.MUL || cell.Referrers() == nil {
			return false
		}
		n := 0
		for _, u := range *cell.Referrers() {
			if st, ok := u.(*ssa.Store); ok && st.Addr == cell {
				if !copyOf(st.Val) {
					return false
				}
				n++
			}
		}
		return n > 0
	case *ssa.Slice:
		return copyOf(v.X)
	case *ssa.ChangeType:
		return copyOf(v.X)
	}
	return false
}

func listElem(t types.Type) *types.Named {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	e := s.Elem()
	if pt, ok := e.(*types.Pointer); ok {
		e = pt.Elem()
	}
	n, _ := e.(*types.Named)
	return n
}

// permutes tells whether a library function rearranges the list it is given.
func permutes(f *ssa.Function) bool {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return false
	}
	n := f.Name()
	switch f.Pkg.Pkg.Path() {
	case "sort":
		return n == "Slice" || n == "SliceStable" || n == "Sort" || n == "Stable"
	case "slices", "golang.org/x/exp/slices":
		return strings.HasPrefix(n, "Sort") && !strings.HasPrefix(n, "Sorted") || n == "Reverse"
	case "math/rand", "math/rand/v2":
		return n == "Shuffle"
	}
	return false
}

// checkListOrder judges the rule for the lists of the given types.
func checkListOrder(p *Prog, r *Report, what string, names ...[2]string) {
	want := map[*types.Named]string{}
	for _, n := range names {
		if t := p.named(n[0], n[1]); t != nil {
			want[t] = n[1]
		}
	}
	r.ob("order", "types", len(want) > 0, "-", "the types of the lists were not found")
	is := func(v ssa.Value) (string, bool) {
		for {
			switch u := v.(type) {
			case *ssa.MakeInterface:
				v = u.X
				continue
			case *ssa.ChangeType:
				v = u.X
				continue
			}
			break
		}
		n := listElem(v.Type())
		if n == nil {
			return "", false
		}
		k, ok := want[n]
		return k, ok && !copyOf(v)
	}
	lists := 0
	for _, f := range p.funcs {
		if len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.IndexAddr:
					if _, ok := is(in.X); ok {
						lists++
					}
				case ssa.CallInstruction:
					g := in.Common().StaticCallee()
					if g == nil || !permutes(g) {
						continue
					}
					for _, a := range in.Common().Args {
						if k, ok := is(a); ok {
							r.bad("order", p.fname(f)+" "+k, p.pos(in.Pos()), "the %s may be rearranged by %s.%s", what, g.Pkg.Pkg.Name(), g.Name())
						}
					}
				case *ssa.Store:
					to, ok := in.Addr.(*ssa.IndexAddr)
					if !ok {
						continue
					}
					k, ok := is(to.X)
					if !ok {
						continue
					}
					ld, ok := in.Val.(*ssa.UnOp)
					if !ok || ld.Op != token.MUL {
						continue
					}
					from, ok := ld.X.(*ssa.IndexAddr)
					if ok && sameList(from.X, to.X) && from.Index != to.Index {
						r.bad("order", p.fname(f)+" "+k, p.pos(in.Pos()), "elements of a list of %s are moved to other positions", what)
					}
				}
			}
		}
	}
	r.ob("order", "lists", lists > 0, "-", "no list of %s is read", what)
}

// sameList tells whether two values are parts of the same list.
func sameList(a, b ssa.Value) bool {
	base := func(v ssa.Value) ssa.Value {
		for {
			switch u := v.(type) {
			case *ssa.Slice:
				v = u.X
			case *ssa.ChangeType:
				v = u.X
			default:
				return v
			}
		}
	}
	a, b = base(a), base(b)
	if a == b {
		return true
	}
	la, ok1 := a.(*ssa.UnOp)
	lb, ok2 := b.(*ssa.UnOp)
	if ok1 && ok2 && la.Op == token.MUL && lb.Op == token.MUL {
		if la.X == lb.X {
			return true
		}
		fa, ok1 := la.X.(*ssa.FieldAddr)
		fb, ok2 := lb.X.(*ssa.FieldAddr)
		return ok1 && ok2 && fa.X == fb.X && fa.Field == fb.Field
	}
	return false
}
