package main

import (
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// checkJSON: every attribute of what is written as JSON has a place of its own
// in it. With only given, just the attribute of that name.
func checkJSON(p *Prog, r *Report, only string) {
	seen := map[string]bool{}
	n := 0
	var visit func(t types.Type)
	visit = func(t types.Type) {
		switch u := types.Unalias(t).(type) {
		case *types.Pointer:
			visit(u.Elem())
			return
		case *types.Slice:
			visit(u.Elem())
			return
		case *types.Array:
			visit(u.Elem())
			return
		case *types.Map:
			visit(u.Elem())
			return
		}
		k := types.TypeString(t, nil)
		if seen[k] {
			return
		}
		seen[k] = true
		nm, _ := types.Unalias(t).(*types.Named)
		if nm == nil || !p.inMod(nm) {
			return
		}
		pos := p.pos(nm.Obj().Pos())
		for _, m := range []string{"MarshalJSON", "MarshalText"} {
			ms := types.NewMethodSet(types.NewPointer(nm))
			r.ob("json", nm.Obj().Name()+" "+m, ms.Lookup(nil, m) == nil, pos, "%s has a method %s: what it writes is not the attributes", nm.Obj().Name(), m)
		}
		if types.IsInterface(t) {
			for _, c := range p.flows()[k] {
				visit(c)
			}
			return
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			visit(t.Underlying())
			return
		}
		type place struct {
			depth int
			field string
		}
		names := map[string][]place{}
		var fields func(st *types.Struct, depth int, path string)
		fields = func(st *types.Struct, depth int, path string) {
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				tag, tagged := reflect.StructTag(st.Tag(i)).Lookup("json")
				name, opts, _ := strings.Cut(tag, ",")
				what := nm.Obj().Name() + " " + path + f.Name()
				if !tagged && f.Embedded() {
					if in, ok := deref(f.Type()).Underlying().(*types.Struct); ok {
						fields(in, depth+1, path+f.Name()+".")
						continue
					}
				}
				if only == "" || only == f.Name() {
					n++
					r.ob("json", what, f.Exported() && name != "-" && !strings.Contains(opts, "omit"), pos, "attribute %s is left out of the result, or may be", f.Name())
				}
				if name == "" || tag == "-" {
					name = f.Name()
				}
				names[name] = append(names[name], place{depth, path + f.Name()})
				visit(f.Type())
			}
		}
		fields(st, 0, "")
		for name, ps := range names {
			if len(ps) > 1 && (only == "" || strings.Contains(ps[0].field+ps[1].field, only)) {
				r.ob("json", nm.Obj().Name()+" name "+name, false, pos, "attributes %s and %s have one name in the result", ps[0].field, ps[1].field)
			}
		}
	}
	calls := 0
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil || g.Pkg == nil || g.Pkg.Pkg.Path() != "encoding/json" || len(ci.Common().Args) == 0 {
					continue
				}
				for _, a := range ci.Common().Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						calls++
						visit(mi.X.Type())
					}
				}
			}
		}
	}
	r.ob("json", "written", calls > 0 && n > 0, "-", "nothing is written as JSON")
}
