package main

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Summaries of what functions write, by where the memory comes from.

// heapRoot is where a reference comes from: a parameter of the function, a
// global variable, or something unknown. Fresh memory has no root.
type heapRoot struct {
	param  int // -1 when it is not a parameter
	global *ssa.Global
	other  bool
}

type heapWrite struct {
	root heapRoot
	key  string
	in   ssa.Instruction
	// how it is written
	kind string // store, map, delete, io, read
	val  ssa.Value
	// the locks held, as their names joined by commas
	locks string
}

// roots finds where a reference comes from.
func heapRoots(v ssa.Value) map[heapRoot]bool {
	out := map[heapRoot]bool{}
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value)
	visit = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.Parameter:
			for i, q := range x.Parent().Params {
				if q == x {
					out[heapRoot{param: i}] = true
				}
			}
		case *ssa.FreeVar:
			for i, q := range x.Parent().FreeVars {
				if q == x {
					out[heapRoot{param: -2 - i}] = true
				}
			}
		case *ssa.Global:
			out[heapRoot{param: -1, global: x}] = true
		case *ssa.Alloc:
			// a reference kept in a local variable
			for _, u := range *x.Referrers() {
				storesTo(u, x, visit)
			}
		case *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.Const, *ssa.Function, *ssa.Builtin:
		case *ssa.MakeClosure:
			for _, b := range x.Bindings {
				visit(b)
			}
		case *ssa.FieldAddr:
			visit(x.X)
		case *ssa.Field:
			visit(x.X)
		case *ssa.IndexAddr:
			if capturedVar(x.Index) && isReference(deref(x.Type())) {
				// which one it is depends on the captured index
				visit(x.Index)
				if innerIndexed(x.X) {
					visit(x.X)
				}
				return
			}
			visit(x.X)
		case *ssa.Index:
			visit(x.X)
		case *ssa.UnOp:
			visit(x.X)
		case *ssa.Lookup:
			if capturedVar(x.Index) && isReference(x.Type()) {
				visit(x.Index)
				if innerIndexed(x.X) {
					visit(x.X)
				}
				return
			}
			visit(x.X)
		case *ssa.Range:
			visit(x.X)
		case *ssa.Next:
			visit(x.Iter)
		case *ssa.Extract:
			visit(x.Tuple)
		case *ssa.TypeAssert:
			visit(x.X)
		case *ssa.ChangeType:
			visit(x.X)
		case *ssa.ChangeInterface:
			visit(x.X)
		case *ssa.MakeInterface:
			visit(x.X)
		case *ssa.Convert:
			visit(x.X)
		case *ssa.MultiConvert:
			visit(x.X)
		case *ssa.SliceToArrayPointer:
			visit(x.X)
		case *ssa.Slice:
			visit(x.X)
		case *ssa.Phi:
			for _, e := range x.Edges {
				visit(e)
			}
		case *ssa.BinOp:
		case *ssa.Call:
			// may give back what it was given
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() != "append" {
				return
			}
			if x.Call.IsInvoke() {
				visit(x.Call.Value)
			}
			if g := x.Call.StaticCallee(); g != nil {
				for t := range returnedGlobals(g) {
					out[t] = true
				}
			}
			for _, a := range x.Call.Args {
				if pointerLike(a.Type()) {
					visit(a)
				}
			}
		default:
			out[heapRoot{param: -1, other: true}] = true
		}
	}
	visit(v)
	return out
}

// capturedVar: the value of a captured variable.
func capturedVar(v ssa.Value) bool {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		v = u.X
	}
	_, ok := v.(*ssa.FreeVar)
	return ok
}

// innerIndexed: the collection is itself an element of one.
func innerIndexed(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.UnOp:
		_, ok := x.X.(*ssa.IndexAddr)
		return ok
	case *ssa.Lookup:
		return true
	case *ssa.Extract:
		_, ok := x.Tuple.(*ssa.Lookup)
		return ok
	}
	return false
}

func isReference(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map:
		return true
	}
	return false
}

var returnedMemo = map[*ssa.Function]map[heapRoot]bool{}

// returnedGlobals: the global variables a function may give a reference into.
func returnedGlobals(g *ssa.Function) map[heapRoot]bool {
	if m, ok := returnedMemo[g]; ok {
		return m
	}
	m := map[heapRoot]bool{}
	returnedMemo[g] = m
	for _, b := range g.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, q := range r.Results {
			if !pointerLike(q.Type()) || isErrorType(q.Type()) {
				continue
			}
			for t := range heapRoots(q) {
				if t.global != nil {
					m[t] = true
				}
			}
		}
	}
	return m
}

func storesTo(u ssa.Instruction, a ssa.Value, visit func(ssa.Value)) {
	switch u := u.(type) {
	case *ssa.Store:
		if u.Addr == a && pointerLike(u.Val.Type()) {
			visit(u.Val)
		}
	case *ssa.FieldAddr:
		for _, w := range *u.Referrers() {
			storesTo(w, u, visit)
		}
	case *ssa.IndexAddr:
		for _, w := range *u.Referrers() {
			storesTo(w, u, visit)
		}
	}
}

// pointerLike: a value of the type refers to memory.
func pointerLike(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if pointerLike(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return pointerLike(u.Elem())
	case *types.Tuple:
		return true
	}
	return false
}

// ownBase tells that the address lies in a variable of the function itself.
func ownBase(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
				return ownSlice(x.X)
			}
			v = x.X
		case *ssa.Alloc:
			return true
		case *ssa.MakeMap:
			return true
		default:
			return false
		}
	}
}

// ownSlice: the list was made here.
func ownSlice(v ssa.Value) bool {
	seen := map[ssa.Value]bool{}
	var visit func(v ssa.Value) bool
	visit = func(v ssa.Value) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		switch x := v.(type) {
		case *ssa.MakeSlice, *ssa.Const:
			return true
		case *ssa.Slice:
			return visit(x.X)
		case *ssa.Alloc:
			return true
		case *ssa.Phi:
			for _, e := range x.Edges {
				if !visit(e) {
					return false
				}
			}
			return true
		case *ssa.Call:
			if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return visit(x.Call.Args[0])
			}
		}
		return false
	}
	return visit(v)
}

// isWriter: values of the type take output.
func isWriter(t types.Type) bool {
	s := types.TypeString(t, nil)
	switch strings.TrimPrefix(s, "*") {
	case "strings.Builder", "bytes.Buffer", "bufio.Writer", "encoding/json.Encoder", "os.File", "io.Writer", "io.StringWriter", "hash.Hash", "hash.Hash32", "hash.Hash64", "text/tabwriter.Writer":
		return true
	}
	ms := types.NewMethodSet(t)
	sel := ms.Lookup(nil, "Write")
	if sel == nil {
		return false
	}
	sig, ok := sel.Type().(*types.Signature)
	return ok && sig.Params().Len() == 1 && types.TypeString(sig.Params().At(0).Type(), nil) == "[]byte"
}

// readOnlyMethod lists methods of writers that write nothing.
func readOnlyMethod(n string) bool {
	switch n {
	case "String", "Len", "Bytes", "Cap", "Sum", "Sum32", "Sum64", "Size", "BlockSize", "Name", "Available", "Buffered", "Close", "Stat", "Fd":
		return true
	}
	return false
}

type heap struct {
	p    *Prog
	sums map[*ssa.Function]map[string]heapWrite
	// reads tells to note reads as well
	reads bool
	// locks gives the locks held at an instruction that keep apart what is
	// done to memory of the root
	locks func(in ssa.Instruction, r heapRoot) string
}

func newHeap(p *Prog) *heap { return &heap{p: p, sums: map[*ssa.Function]map[string]heapWrite{}} }

// writes is the summary of f: everything it and the functions below may write
// that was there before.
func (h *heap) writes(f *ssa.Function) map[string]heapWrite {
	if s, ok := h.sums[f]; ok {
		return s
	}
	// the group of functions below, to a fixed point
	var group []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var collect func(g *ssa.Function)
	collect = func(g *ssa.Function) {
		if g == nil || seen[g] || len(g.Blocks) == 0 || h.sums[g] != nil {
			return
		}
		pk := pkgOf(g)
		if pk == nil || !h.p.inRepo(g) {
			return
		}
		seen[g] = true
		group = append(group, g)
		e := newEffects()
		for _, b := range g.Blocks {
			for _, q := range h.p.ownEffects(b, e) {
				collect(q)
			}
		}
	}
	collect(f)
	for _, g := range group {
		h.sums[g] = map[string]heapWrite{}
	}
	for again := true; again; {
		again = false
		for _, g := range group {
			n := len(h.sums[g])
			h.pass(g)
			if len(h.sums[g]) != n {
				again = true
			}
		}
	}
	if h.sums[f] == nil {
		return map[string]heapWrite{}
	}
	return h.sums[f]
}

func (h *heap) add(g *ssa.Function, w heapWrite) {
	k := w.key + "|" + w.kind + "|" + h.p.pos(w.in.Pos()) + "|" + w.locks + "|"
	switch {
	case w.root.global != nil:
		k += w.root.global.String()
	case w.root.other:
		k += "?"
	default:
		k += itoaSigned(w.root.param)
	}
	if _, ok := h.sums[g][k]; !ok {
		h.sums[g][k] = w
	}
}

// up passes what a callee does on to its caller.
func (h *heap) up(g *ssa.Function, in ssa.CallInstruction, w heapWrite, r heapRoot) {
	w.root = r
	if h.locks != nil {
		w.locks = joinLocks(w.locks, h.held(in, r))
	}
	h.add(g, w)
}

func (h *heap) held(in ssa.Instruction, r heapRoot) string {
	if h.locks == nil {
		return ""
	}
	if _, ok := in.(*ssa.Go); ok {
		return ""
	}
	return h.locks(in, r)
}

func joinLocks(a, b string) string {
	if a == "" || a == b {
		return b
	}
	if b == "" {
		return a
	}
	set := map[string]bool{}
	for _, l := range strings.Split(a+","+b, ",") {
		set[l] = true
	}
	var out []string
	for l := range set {
		out = append(out, l)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

func itoaSigned(i int) string {
	if i < 0 {
		return "-" + itoa(-i)
	}
	return itoa(i)
}

func (h *heap) pass(g *ssa.Function) {
	put := func(base ssa.Value, key, kind string, in ssa.Instruction, val ssa.Value) {
		for r := range heapRoots(base) {
			h.add(g, heapWrite{root: r, key: key, in: in, kind: kind, val: val, locks: h.held(in, r)})
		}
	}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if ownBase(in.Addr) {
					continue
				}
				ks := map[string]bool{}
				h.p.addrKeys(in.Addr, ks)
				for k := range ks {
					put(in.Addr, k, "store", in, in.Val)
				}
			case *ssa.MapUpdate:
				if _, ok := in.Map.(*ssa.MakeMap); ok {
					continue
				}
				put(in.Map, mapKey(in.Map), "map", in, in.Value)
			case *ssa.UnOp:
				if h.reads && in.Op == token.MUL && !ownBase(in.X) {
					ks := map[string]bool{}
					h.p.addrKeys(in.X, ks)
					for k := range ks {
						put(in.X, k, "read", in, nil)
					}
				}
			case *ssa.Lookup:
				if h.reads {
					put(in.X, mapKey(in.X), "read", in, nil)
				}
			case *ssa.Range:
				if h.reads {
					put(in.X, mapKey(in.X), "read", in, nil)
				}
			case ssa.CallInstruction:
				h.callWrites(g, in, put)
			}
		}
	}
}

// mapKey names the map by the variable or field it is kept in, where known.
func mapKey(m ssa.Value) string {
	if u, ok := m.(*ssa.UnOp); ok && u.Op == token.MUL {
		switch a := u.X.(type) {
		case *ssa.FieldAddr:
			return fieldKey(deref(a.X.Type()), a.Field) + "[]"
		case *ssa.Global:
			return "g:" + a.String() + "[]"
		}
	}
	return "m:" + types.TypeString(m.Type().Underlying(), nil)
}

func (h *heap) callWrites(g *ssa.Function, in ssa.CallInstruction, put func(ssa.Value, string, string, ssa.Instruction, ssa.Value)) {
	cc := in.Common()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		switch b.Name() {
		case "delete", "clear":
			put(cc.Args[0], mapKey(cc.Args[0]), "delete", in, nil)
		case "copy":
			if !ownSlice(cc.Args[0]) {
				put(cc.Args[0], "e:"+types.TypeString(cc.Args[0].Type(), nil), "store", in, nil)
			}
		case "append":
			// the spare room of a list is not looked at by its other owners
		}
		return
	}
	var callees []*ssa.Function
	var args []ssa.Value
	if cc.IsInvoke() {
		callees = h.p.implementations(cc.Value.Type(), cc.Method)
		args = append([]ssa.Value{cc.Value}, cc.Args...)
		if isWriter(cc.Value.Type()) && !readOnlyMethod(cc.Method.Name()) {
			put(cc.Value, "io", "io", in, nil)
		}
	} else {
		args = cc.Args
		switch v := cc.Value.(type) {
		case *ssa.Function:
			callees = []*ssa.Function{v}
		case *ssa.MakeClosure:
			callees = []*ssa.Function{v.Fn.(*ssa.Function)}
		default:
			callees = h.p.funcValues(cc.Value.Type())
		}
	}
	for _, q := range callees {
		if !h.p.inRepo(q) {
			h.libWrites(q, args, in, put)
			continue
		}
		for _, w := range h.sums[q] {
			switch {
			case w.root.global != nil || w.root.other:
				h.up(g, in, w, w.root)
			case w.root.param <= -2:
				// a captured variable: of the function that made the closure
				i := -2 - w.root.param
				if mc, ok := cc.Value.(*ssa.MakeClosure); ok && i < len(mc.Bindings) {
					if _, own := mc.Bindings[i].(*ssa.Alloc); own && w.kind == "store" && storesVar(w) {
						continue
					}
					for r := range heapRoots(mc.Bindings[i]) {
						h.up(g, in, w, r)
					}
				}
			case w.root.param < len(args):
				for r := range heapRoots(args[w.root.param]) {
					h.up(g, in, w, r)
				}
			}
		}
	}
	// closures that are made here and called elsewhere
	for _, a := range cc.Args {
		mc, ok := a.(*ssa.MakeClosure)
		if !ok {
			continue
		}
		for _, w := range h.sums[mc.Fn.(*ssa.Function)] {
			if w.root.global != nil || w.root.other {
				h.up(g, in, w, w.root)
			}
			if i := -2 - w.root.param; i >= 0 && i < len(mc.Bindings) {
				if _, own := mc.Bindings[i].(*ssa.Alloc); own && w.kind == "store" && storesVar(w) {
					continue
				}
				for r := range heapRoots(mc.Bindings[i]) {
					h.up(g, in, w, r)
				}
			}
		}
	}
}

// libWrites: what a library function does to its arguments.
func (h *heap) libWrites(q *ssa.Function, args []ssa.Value, in ssa.CallInstruction, put func(ssa.Value, string, string, ssa.Instruction, ssa.Value)) {
	pk := pkgOf(q)
	if pk == nil {
		return
	}
	switch pk.Path() {
	case "log", "sync", "errors", "sync/atomic":
		return
	case "fmt":
		switch {
		case q.Name() == "Print" || q.Name() == "Println" || q.Name() == "Printf":
			h.add(in.Parent(), heapWrite{root: heapRoot{param: -1, other: true}, key: "io", in: in, kind: "io"})
			return
		case !strings.HasPrefix(q.Name(), "Fprint"):
			return
		}
		if isStderr(args[0]) {
			return
		}
		put(args[0], "io", "io", in, nil)
		return
	}
	if isSort(q) {
		if len(args) > 0 && !ownSlice(args[0]) {
			put(args[0], "e:sort", "sort", in, nil)
		}
		return
	}
	if q.Signature.Recv() != nil && readOnlyMethod(q.Name()) {
		return
	}
	for _, a := range args {
		if isWriter(a.Type()) || isIface(a.Type()) && isWriterIface(a) {
			if isStderr(a) {
				continue
			}
			put(a, "io", "io", in, nil)
		}
	}
}

func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }

func isWriterIface(v ssa.Value) bool {
	mi, ok := v.(*ssa.MakeInterface)
	return ok && isWriter(mi.X.Type())
}

// storesVar: the write changes a captured variable itself, not what it refers to.
func storesVar(w heapWrite) bool {
	st, ok := w.in.(*ssa.Store)
	if !ok {
		return false
	}
	a := st.Addr
	for {
		switch x := a.(type) {
		case *ssa.FieldAddr:
			a = x.X
			continue
		case *ssa.IndexAddr:
			if _, arr := deref(x.X.Type()).Underlying().(*types.Array); arr {
				a = x.X
				continue
			}
		case *ssa.FreeVar:
			return true
		}
		return false
	}
}
