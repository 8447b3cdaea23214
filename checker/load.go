package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the type checked program under analysis and its SSA form.
type Prog struct {
	accessors map[*ssa.Function]bool
	dir       string
	mod       string // module path
	fset      *token.FileSet
	pkgs      []*packages.Package // packages of the module, sorted
	byRel     map[string]*packages.Package
	ssa       *ssa.Program
	spkg      map[string]*ssa.Package // relative path to SSA package
	funcs     []*ssa.Function         // functions of the module, with closures and methods

	impls   map[string][]*ssa.Function
	flow    map[string]map[string]types.Type
	mods    map[*ssa.Function]*effects
	taken   map[string]string
	private map[string]bool
	loops   map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	built   map[*ssa.Package]bool
	consts  map[*ssa.Global]bool

	fieldTypes map[string]types.Type
}

// stdBuilt lists library packages whose bodies are analysed like repository code.
var stdBuilt = map[string]bool{
	"slices": true, "maps": true, "cmp": true,
	"golang.org/x/exp/slices": true, "golang.org/x/exp/maps": true,
}

func load(dir string) (*Prog, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off", "CGO_ENABLED=0", "GOTOOLCHAIN=local")
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: dir,
		Env: env,
	}
	roots, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(roots, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the program does not type check: %s", strings.Join(errs, "; "))
	}
	if len(roots) == 0 {
		return nil, fmt.Errorf("no packages")
	}
	p := &Prog{
		dir: dir, byRel: map[string]*packages.Package{}, spkg: map[string]*ssa.Package{},
		impls: map[string][]*ssa.Function{}, mods: map[*ssa.Function]*effects{},
		loops: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		built: map[*ssa.Package]bool{},
	}
	for _, r := range roots {
		if r.Module != nil {
			p.mod = r.Module.Path
		}
	}
	p.fset = roots[0].Fset
	sort.Slice(roots, func(i, j int) bool { return roots[i].PkgPath < roots[j].PkgPath })
	p.pkgs = roots
	sp, _ := ssautil.AllPackages(roots, ssa.InstantiateGenerics)
	p.ssa = sp
	for _, r := range roots {
		rel := strings.TrimPrefix(strings.TrimPrefix(r.PkgPath, p.mod), "/")
		p.byRel[rel] = r
		s := sp.Package(r.Types)
		if s == nil {
			return nil, fmt.Errorf("no SSA for %s", r.PkgPath)
		}
		p.spkg[rel] = s
	}
	for _, s := range sp.AllPackages() {
		path := s.Pkg.Path()
		if strings.HasPrefix(path, p.mod) || stdBuilt[path] {
			s.Build()
			p.built[s] = true
		}
	}
	for f := range ssautil.AllFunctions(sp) {
		if p.inRepo(f) && f.Blocks != nil {
			p.funcs = append(p.funcs, f)
		}
	}
	sort.Slice(p.funcs, func(i, j int) bool {
		a, b := p.funcs[i], p.funcs[j]
		if a.Pos() != b.Pos() {
			return a.Pos() < b.Pos()
		}
		return a.String() < b.String()
	})
	return p, nil
}

// pkgOf is the package a function belongs to, also for instances and wrappers.
func pkgOf(f *ssa.Function) *types.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Object() != nil {
		return f.Object().Pkg()
	}
	return nil
}

func (p *Prog) inRepo(f *ssa.Function) bool {
	pk := pkgOf(f)
	return pk != nil && (pk.Path() == p.mod || strings.HasPrefix(pk.Path(), p.mod+"/"))
}

// rel is the import path of pk relative to the module.
func (p *Prog) rel(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	if pk.Path() == p.mod || strings.HasPrefix(pk.Path(), p.mod+"/") {
		return strings.TrimPrefix(strings.TrimPrefix(pk.Path(), p.mod), "/")
	}
	return pk.Path()
}

// fname names a function for reports, stable under moves of lines.
func (p *Prog) fname(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.RelString(nil)
	s = strings.ReplaceAll(s, p.mod+"/", "")
	return s
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	r, err := filepath.Rel(p.dir, q.Filename)
	if err != nil || strings.HasPrefix(r, "..") {
		r = q.Filename
	}
	return fmt.Sprintf("%s:%d", r, q.Line)
}

// fn finds a package level function; rel is relative to the module.
func (p *Prog) fn(rel, name string) *ssa.Function {
	s := p.spkg[rel]
	if s == nil {
		return nil
	}
	return s.Func(name)
}

// method finds a method of a named type.
func (p *Prog) method(rel, typ, name string) *ssa.Function {
	n := p.named(rel, typ)
	if n == nil {
		return nil
	}
	for _, t := range []types.Type{n, types.NewPointer(n)} {
		ms := p.ssa.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				f := p.ssa.MethodValue(ms.At(i))
				if f != nil && f.Synthetic == "" {
					return f
				}
			}
		}
	}
	return nil
}

func (p *Prog) named(rel, typ string) *types.Named {
	q := p.byRel[rel]
	if q == nil {
		return nil
	}
	o := q.Types.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

func (p *Prog) global(rel, name string) *ssa.Global {
	s := p.spkg[rel]
	if s == nil {
		return nil
	}
	return s.Var(name)
}

// flows computes, for every interface type, the concrete types whose values
// are converted to it somewhere in the module.
func (p *Prog) flows() map[string]map[string]types.Type {
	if p.flow != nil {
		return p.flow
	}
	flow := map[string]map[string]types.Type{}
	ifc := map[string]types.Type{}
	type edge struct{ from, to string }
	edges := map[edge]bool{}
	ts := func(t types.Type) string { return types.TypeString(t, nil) }
	add := func(i types.Type, t types.Type) {
		k := ts(i)
		ifc[k] = i
		if flow[k] == nil {
			flow[k] = map[string]types.Type{}
		}
		flow[k][ts(t)] = t
	}
	link := func(from, to types.Type) {
		ifc[ts(from)], ifc[ts(to)] = from, to
		edges[edge{ts(from), ts(to)}] = true
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.MakeInterface:
					add(in.Type(), in.X.Type())
				case *ssa.ChangeInterface:
					link(in.X.Type(), in.Type())
				case *ssa.TypeAssert:
					if types.IsInterface(in.AssertedType) {
						link(in.X.Type(), in.AssertedType)
					}
				}
			}
		}
	}
	for changed := true; changed; {
		changed = false
		for e := range edges {
			it := ifc[e.to].Underlying().(*types.Interface)
			for k, t := range flow[e.from] {
				if !types.Implements(t, it) {
					continue
				}
				if flow[e.to] == nil {
					flow[e.to] = map[string]types.Type{}
				}
				if _, ok := flow[e.to][k]; !ok {
					flow[e.to][k] = t
					changed = true
				}
			}
		}
	}
	p.flow = flow
	return flow
}

// implementations returns the repository methods an interface call may reach.
func (p *Prog) implementations(iface types.Type, m *types.Func) []*ssa.Function {
	key := types.TypeString(iface, nil) + "." + m.Name()
	if r, ok := p.impls[key]; ok {
		return r
	}
	fl := p.flows()[types.TypeString(iface, nil)]
	var names []string
	for n := range fl {
		names = append(names, n)
	}
	sort.Strings(names)
	var out []*ssa.Function
	for _, n := range names {
		sel := p.ssa.MethodSets.MethodSet(fl[n]).Lookup(m.Pkg(), m.Name())
		if sel == nil {
			continue
		}
		if f := p.ssa.MethodValue(sel); f != nil {
			out = append(out, f)
		}
	}
	p.impls[key] = out
	return out
}

// loopsOf returns the natural loops of f by header.
func (p *Prog) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := p.loops[f]; ok {
		return l
	}
	out := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := out[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				out[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if body[c] {
					continue
				}
				body[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	p.loops[f] = out
	return out
}

// effects is what a function, or a group of blocks, may write and read.
type effects struct {
	w, r map[string]bool
	all  bool // writes anything
}

func newEffects() *effects { return &effects{w: map[string]bool{}, r: map[string]bool{}} }

func structName(t types.Type) string {
	t = types.Unalias(t)
	if n, ok := t.(*types.Named); ok {
		o := n.Origin().Obj()
		if o.Pkg() != nil {
			return o.Pkg().Path() + "." + o.Name()
		}
		return o.Name()
	}
	return types.TypeString(t, nil)
}

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// fieldKey is the effect key of field i of struct type t.
func fieldKey(t types.Type, i int) string {
	st := t.Underlying().(*types.Struct)
	return "f:" + structName(t) + ":" + st.Field(i).Name()
}

func allocKey(a *ssa.Alloc) string {
	return fmt.Sprintf("a:%s:%s:%d", a.Parent().String(), a.Name(), a.Pos())
}

// privates are the variables only ever read and written by name in their own
// function.
func (p *Prog) privates() map[string]bool {
	if p.private != nil {
		return p.private
	}
	p.private = map[string]bool{}
	var named func(v ssa.Value) bool
	named = func(v ssa.Value) bool {
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if r.Val == v {
					return false
				}
			case *ssa.FieldAddr:
				if !named(r) {
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if a, ok := in.(*ssa.Alloc); ok && named(a) {
					p.private[allocKey(a)] = true
				}
			}
		}
	}
	return p.private
}

// addrKeys lists the effect keys of the memory an address stands for. Memory
// of a variable that is named directly gets the key "a:site|part".
func (p *Prog) addrKeys(v ssa.Value, out map[string]bool) {
	if a := p.rootAlloc(v); a != nil {
		part := "*"
		if fa, ok := v.(*ssa.FieldAddr); ok && !isStruct(deref(v.Type())) {
			part = fieldKey(deref(fa.X.Type()), fa.Field)
		}
		out[allocKey(a)+"|"+part] = true
		return
	}
	el := deref(v.Type())
	switch v := v.(type) {
	case *ssa.FieldAddr:
		out[fieldKey(deref(v.X.Type()), v.Field)] = true
		if isStruct(el) {
			structKeys(el, out)
		}
		return
	case *ssa.Global:
		out["g:"+v.String()] = true
		if isStruct(el) {
			structKeys(el, out)
		}
		return
	case *ssa.IndexAddr:
		out["e:"+types.TypeString(el, nil)] = true
		if isStruct(el) {
			structKeys(el, out)
		}
		return
	}
	if isStruct(el) {
		structKeys(el, out)
	} else {
		out["c:"+types.TypeString(el, nil)] = true
	}
}

// rootAlloc is the variable an address lies in, when it is named directly.
func (p *Prog) rootAlloc(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FreeVar:
			return p.freeVarAlloc(x)
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return nil
			}
			v = x.X
		default:
			return nil
		}
	}
}

func structKeys(t types.Type, out map[string]bool) {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		out[fieldKey(t, i)] = true
		if isStruct(st.Field(i).Type()) {
			structKeys(st.Field(i).Type(), out)
		}
	}
}

// takenFields lists the fields, elements and globals whose address is used as
// a pointer value, with the type it points to.
func (p *Prog) takenFields() map[string]string {
	if p.taken != nil {
		return p.taken
	}
	p.taken = map[string]string{}
	note := func(v ssa.Value, refs []ssa.Instruction) {
		el := deref(v.Type())
		if isStruct(el) {
			return
		}
		for _, r := range refs {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
				continue
			case *ssa.Store:
				if r.Val != v {
					continue
				}
			}
			out := map[string]bool{}
			switch v := v.(type) {
			case *ssa.FieldAddr:
				out[fieldKey(deref(v.X.Type()), v.Field)] = true
			case *ssa.IndexAddr:
				out["e:"+types.TypeString(el, nil)] = true
			case *ssa.Global:
				out["g:"+v.String()] = true
			}
			for k := range out {
				p.taken[k] = types.TypeString(el, nil)
			}
		}
	}
	for _, f := range p.funcs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch v := in.(type) {
				case *ssa.FieldAddr:
					note(v, *v.Referrers())
				case *ssa.IndexAddr:
					note(v, *v.Referrers())
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok {
						note(g, []ssa.Instruction{in})
					}
				}
			}
		}
	}
	return p.taken
}

// freeVarAlloc finds the single variable a free variable is bound to.
func (p *Prog) freeVarAlloc(fv *ssa.FreeVar) *ssa.Alloc {
	f := fv.Parent()
	idx := -1
	for i, x := range f.FreeVars {
		if x == fv {
			idx = i
		}
	}
	if idx < 0 || f.Parent() == nil {
		return nil
	}
	var res *ssa.Alloc
	for _, b := range f.Parent().Blocks {
		for _, in := range b.Instrs {
			mc, ok := in.(*ssa.MakeClosure)
			if !ok || mc.Fn != f {
				continue
			}
			var a *ssa.Alloc
			switch x := mc.Bindings[idx].(type) {
			case *ssa.Alloc:
				a = x
			case *ssa.FreeVar:
				a = p.freeVarAlloc(x)
			}
			if a == nil || (res != nil && res != a) {
				return nil
			}
			res = a
		}
	}
	return res
}

func (e *effects) add(o *effects) {
	for k := range o.w {
		e.w[k] = true
	}
	for k := range o.r {
		e.r[k] = true
	}
	e.all = e.all || o.all
}

// ownEffects adds the effects of the instructions of b, without callees, and
// returns the functions it may call.
func (p *Prog) ownEffects(b *ssa.BasicBlock, e *effects) (callees []*ssa.Function) {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Store:
			p.addrKeys(in.Addr, e.w)
		case *ssa.UnOp:
			if in.Op == token.MUL {
				p.addrKeys(in.X, e.r)
			}
		case *ssa.MapUpdate:
			e.w["m:"+types.TypeString(in.Map.Type().Underlying(), nil)] = true
		case *ssa.Lookup:
			e.r["m:"+types.TypeString(in.X.Type().Underlying(), nil)] = true
		case *ssa.Range:
			e.r["m:"+types.TypeString(in.X.Type().Underlying(), nil)] = true
		case *ssa.MakeClosure:
			callees = append(callees, in.Fn.(*ssa.Function))
		}
		if c, ok := in.(ssa.CallInstruction); ok {
			cc := c.Common()
			if cc.IsInvoke() {
				callees = append(callees, p.implementations(cc.Value.Type(), cc.Method)...)
				continue
			}
			switch v := cc.Value.(type) {
			case *ssa.Function:
				callees = append(callees, v)
				if isSort(v) && len(cc.Args) > 0 {
					t := cc.Args[0].Type()
					if mi, ok := cc.Args[0].(*ssa.MakeInterface); ok {
						t = mi.X.Type()
					}
					if s, ok := t.Underlying().(*types.Slice); ok {
						e.w["e:"+types.TypeString(s.Elem(), nil)] = true
					}
				}
				for _, a := range cc.Args {
					if f, ok := a.(*ssa.Function); ok {
						callees = append(callees, f)
					}
				}
			case *ssa.MakeClosure:
				callees = append(callees, v.Fn.(*ssa.Function))
			case *ssa.Builtin:
				switch v.Name() {
				case "delete":
					e.w["m:"+types.TypeString(cc.Args[0].Type().Underlying(), nil)] = true
				case "copy":
					if s, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
						e.w["e:"+types.TypeString(s.Elem(), nil)] = true
					}
				}
			default:
				// A function value: closures of the repository with this signature.
				callees = append(callees, p.funcValues(v.Type())...)
			}
		}
	}
	return callees
}

func isSort(f *ssa.Function) bool {
	pk := pkgOf(f)
	if pk == nil {
		return false
	}
	switch pk.Path() {
	case "sort":
		switch f.Name() {
		case "Slice", "SliceStable", "Strings", "Ints", "Float64s", "Sort", "Stable":
			return true
		}
	case "slices", "golang.org/x/exp/slices":
		n := f.Name()
		if o := f.Origin(); o != nil {
			n = o.Name()
		}
		return strings.HasPrefix(n, "Sort") && !strings.HasPrefix(n, "Sorted")
	}
	return false
}

// funcValues lists the repository functions used as values of the given signature.
func (p *Prog) funcValues(t types.Type) []*ssa.Function {
	sig, ok := t.Underlying().(*types.Signature)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	for _, f := range p.funcs {
		if f.Parent() == nil && f.Object() == nil || f.Signature.Recv() != nil {
			continue
		}
		if types.Identical(f.Signature.Params(), sig.Params()) && types.Identical(f.Signature.Results(), sig.Results()) {
			out = append(out, f)
		}
	}
	return out
}

// effectsOf is the transitive effect of f.
func (p *Prog) effectsOf(f *ssa.Function) *effects {
	if e, ok := p.mods[f]; ok {
		return e
	}
	e := newEffects()
	seen := map[*ssa.Function]bool{}
	p.closeEffects([]*ssa.Function{f}, e, seen)
	dropOwn(e.w, seen)
	dropOwn(e.r, seen)
	p.mods[f] = e
	return e
}

func (p *Prog) closeEffects(work []*ssa.Function, e *effects, seen map[*ssa.Function]bool) {
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if g == nil || seen[g] {
			continue
		}
		seen[g] = true
		if m, ok := p.mods[g]; ok {
			e.add(m)
			continue
		}
		for _, b := range g.Blocks {
			work = append(work, p.ownEffects(b, e)...)
		}
	}
}

func (p *Prog) effectsOfBlocks(bs map[*ssa.BasicBlock]bool) *effects {
	e := newEffects()
	t := newEffects()
	seen := map[*ssa.Function]bool{}
	for b := range bs {
		p.closeEffects(p.ownEffects(b, e), t, seen)
	}
	dropOwn(t.w, seen)
	dropOwn(t.r, seen)
	e.add(t)
	return e
}

// effectsBut are the effects without those of some functions.
func (p *Prog) effectsBut(bs map[*ssa.BasicBlock]bool, but func(f *ssa.Function) bool) *effects {
	e := newEffects()
	t := newEffects()
	seen := map[*ssa.Function]bool{}
	for b := range bs {
		work := p.ownEffects(b, e)
		for len(work) > 0 {
			g := work[len(work)-1]
			work = work[:len(work)-1]
			if g == nil || seen[g] || but(g) {
				continue
			}
			seen[g] = true
			for _, b := range g.Blocks {
				work = append(work, p.ownEffects(b, t)...)
			}
		}
	}
	dropOwn(t.w, seen)
	dropOwn(t.r, seen)
	e.add(t)
	return e
}

// dropOwn removes variables of the functions in seen: they are new in each call.
func dropOwn(m map[string]bool, seen map[*ssa.Function]bool) {
	for k := range m {
		if !strings.HasPrefix(k, "a:") {
			continue
		}
		for g := range seen {
			if strings.HasPrefix(k, "a:"+g.String()+":") {
				delete(m, k)
				break
			}
		}
	}
}
