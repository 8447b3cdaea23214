package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// What the parser makes of every part of the syntax tree.

// madeCheck hands obligations to the property that is being decided.
type madeCheck struct {
	p   *Prog
	r   *Report
	set map[*ssa.Function]bool
}

func (c *madeCheck) ob(prop, rule, construct string, ok bool, pos, format string, a ...any) {
	if prop == c.r.prop {
		c.r.ob(rule, construct, ok, pos, format, a...)
	}
}

// partsOf lists the fields of the node a term is made of.
func partsOf(x *Exec, t, node *Term) map[string]bool {
	out := map[string]bool{}
	n := canonNode(x, node)
	x.find(t).contains(func(u *Term) bool {
		if u.op == OpField || u.op == OpLoad || u.op == OpStruct {
			if m, f := partOf(x, u); m == n {
				out[f] = true
			}
		}
		if u.op == OpLoad || u.op == OpStruct {
			// a part of a part
			for a := placeOf(x, u); a != nil && a.op == OpFieldAddr; a = a.args[0] {
				if a.args[0] == n {
					_, f, _ := strings.Cut(a.aux, ":")
					out[f] = true
				}
			}
		}
		return false
	})
	return out
}

func onlyPart(x *Exec, t, node *Term, fields ...string) bool {
	if t == nil {
		return false
	}
	ps := partsOf(x, t, node)
	if len(ps) != 1 {
		return false
	}
	for _, f := range fields {
		if ps[f] {
			return true
		}
	}
	return false
}

// exprOf tells whether t is the expression made of the field of the node.
func (c *madeCheck) exprOf(x *Exec, t, node *Term, field string) bool {
	t = x.find(t)
	if t.op != OpExtract || t.aux != "0" || t.args[0].op != OpCall || len(t.args[0].args) == 0 {
		return false
	}
	cl := t.args[0]
	return strings.HasPrefix(cl.aux, pkgPrs+".MakeExpr") && astPart(x, cl.args[0], node, field)
}

// nodeOfText gives the node a text is the field of.
func nodeOfText(x *Exec, t *Term, field string) *Term {
	t = x.find(t)
	if t.op != OpCall || !strings.HasPrefix(t.aux, pkgTok+".Text") || len(t.args) != 2 {
		return nil
	}
	if n, f := partOf(x, t.args[0]); f == field {
		return n
	}
	return nil
}

// single judges the function that makes one instantiation or type.
func (c *madeCheck) single(f *ssa.Function, kind string) {
	p := c.p
	n := 0
	pos := p.pos(f.Pos())
	lower := strings.ToLower(kind)
	walkBuilder(p, c.r, f, c.set, nil, func(w *buildWalk, res *Term) {
		x := w.x
		if !succeeded(x, f, res) {
			return
		}
		obj := x.find(res)
		if f.Signature.Results().Len() > 1 {
			obj = x.find(x.extract(res, 0))
		}
		n++
		node, _ := w.nodeParam(kind)
		src := w.srcParam()
		node = x.find(node)
		T := p.named(pkgPrs, kind)
		text := func(prop, m, field string) {
			v := w.get(obj, kind, m)
			c.ob(prop, "made", kind+" "+m, v != nil && textOf(x, v, node, src, field), pos, "%s of a %s is not the text of its %s", m, lower, strings.ToLower(field))
		}
		text("C15", "Name", "Name")
		text("C15", "Type", "Type")
		doc := w.get(obj, kind, "Doc")
		ok := doc != nil && doc.op == OpCall && strings.Contains(doc.aux, "Doc).Text") && len(doc.args) == 2 && astPart(x, doc.args[0], node, "Doc") && x.find(doc.args[1]) == x.find(src)
		c.ob("C18", "made", kind+" Doc", ok, pos, "the documentation of a %s is not the text of its comment", lower)
		cnt := w.get(obj, kind, "Count")
		c.ob("C22", "made", kind+" Count", cnt != nil && c.exprOf(x, cnt, node, "Count"), pos, "the count of a %s is not the expression in its brackets", lower)
		args := w.get(obj, kind, "Args")
		c.ob("C17", "made", kind+" Args", onlyPart(x, args, node, "ArgList", "Args"), pos, "the arguments of a %s are not those of its argument list", lower)
		if kind == "Type" {
			ps := w.get(obj, kind, "Params")
			c.ob("C17", "made", kind+" Params", onlyPart(x, ps, node, "Params"), pos, "the parameters of a type are not those of its parameter list")
		}
		props := w.get(obj, kind, "Props")
		for _, q := range []string{"C06", "C07", "C22"} {
			c.ob(q, "made", kind+" Props", onlyPart(x, props, node, "Body"), pos, "the properties of a %s are not those of its body", lower)
		}
		for _, k := range symbolKinds {
			ok := false
			for _, s := range ownSources(x, obj, T, k) {
				ok = ok || s.mp == nil && onlyPart(x, s.t, node, "Body")
			}
			for _, q := range []string{"C15", "C09"} {
				c.ob(q, "made", kind+" "+k+"s", ok, pos, "the definitions in the body of a %s are not kept", lower)
			}
		}
	})
	c.ob("C15", "made", kind, n > 0, pos, "no %s can be made", lower)
}

// list judges a function that makes a list of symbols, arguments, parameters
// or whatever of the list of nodes.
func (c *madeCheck) list(f *ssa.Function, kind string, props []string, shot func(w *buildWalk, x *Exec, el *Term) *Term, result func(w *buildWalk, res *Term) *Term, nodes func(w *buildWalk, from *Term) bool) {
	p := c.p
	pos := p.pos(f.Pos())
	n := 0
	walkBuilder(p, c.r, f, c.set, func(w *buildWalk, h *Hooks) {
		w.each.shot = func(x *Exec, el *Term) *Term { return shot(w, x, el) }
	}, func(w *buildWalk, res *Term) {
		x := w.x
		if !succeeded(x, f, res) {
			return
		}
		n++
		out := x.find(result(w, res))
		if x.provesLE0(x.ts.Poly(x.length(out))) {
			// nothing in, nothing out
			ok := false
			for l, v := range x.lits {
				_ = v
				l.contains(func(t *Term) bool {
					if t.op == OpLen && nodes(w, t.args[0]) && x.provesLE0(x.ts.Poly(t)) {
						ok = true
					}
					return false
				})
			}
			for _, q := range props {
				c.ob(q, "listed", kind+" none", ok, pos, "no %s is made although some may be written", strings.ToLower(kind))
			}
			return
		}
		from, ev := w.each.collected(x, out, w.listType())
		ok := ev != nil && nodes(w, from)
		if ok {
			e := ev.Args[1]
			ok = canonNode(x, e) == w.each.element(x, from, 0)
		}
		for _, q := range props {
			c.ob(q, "listed", kind, ok, pos, "not every %s that is written is made, or not once, or not as written", strings.ToLower(kind))
		}
	})
	for _, q := range props {
		c.ob(q, "listed", kind+" made", n > 0, pos, "no %s can be made", strings.ToLower(kind))
	}
}

// listType finds the type of the list that is returned.
func (w *buildWalk) listType() types.Type {
	t := w.f.Signature.Results().At(0).Type()
	if st, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if isSlice(st.Field(i).Type()) {
				return st.Field(i).Type()
			}
		}
	}
	return t
}

// first is the first of several results, or the only one.
func (w *buildWalk) first(res *Term) *Term {
	if w.f.Signature.Results().Len() > 1 {
		return w.x.extract(res, 0)
	}
	return res
}

// symbolShot replaces a symbol by the node it was made of.
func (c *madeCheck) symbolShot(kind string) func(w *buildWalk, x *Exec, el *Term) *Term {
	return func(w *buildWalk, x *Exec, el *Term) *Term {
		if el.op == OpExtract && el.aux == "0" {
			el = el.args[0]
		}
		if el.op == OpCall {
			for f := range c.set {
				if k, list := builds(f); k == kind && !list && strings.HasPrefix(el.aux, calleeName(c.p, f)) {
					for i, q := range f.Params {
						if isNamed(deref(q.Type()), pkgAst, kind) && i < len(el.args) {
							return canonNode(x, el.args[i])
						}
					}
				}
			}
			return el
		}
		if el.op != OpAlloc || kind != "Const" {
			return el
		}
		pos := c.p.pos(w.f.Pos())
		src := w.srcParam()
		name := w.get(el, kind, "Name")
		if name == nil {
			return el
		}
		node := nodeOfText(x, name, "Name")
		if node == nil || x.find(name.args[1]) != x.find(src) {
			return el
		}
		v := x.fieldByName(el, c.p.named(pkgPrs, kind), "Value")
		c.ob("C15", "made", "Const Value", c.exprOf(x, v, node, "Value"), pos, "the value of a constant is not the expression written for it")
		doc := w.get(el, kind, "Doc")
		ok := doc != nil && doc.op == OpCall && strings.Contains(doc.aux, "Doc).Text") && len(doc.args) == 2 && astPart(x, doc.args[0], node, "Doc") && x.find(doc.args[1]) == x.find(src)
		c.ob("C18", "made", "Const Doc", ok, pos, "the documentation of a constant is not the text of its comment")
		return node
	}
}

func (c *madeCheck) run() {
	p := c.p
	c.set = p.builderSet()
	got := map[string]bool{}
	for _, f := range p.funcs {
		if !c.set[f] {
			continue
		}
		if kind, list := builds(f); kind != "" {
			if !list {
				c.single(f, kind)
				continue
			}
			got[kind] = true
			c.list(f, kind, []string{"C15", "C09"}, c.symbolShot(kind),
				func(w *buildWalk, res *Term) *Term { return w.first(res) },
				func(w *buildWalk, from *Term) bool {
					n, _ := w.nodeParam(kind)
					return w.x.find(from) == w.x.find(n)
				})
		}
	}
	c.parts()
	c.files()
	for _, k := range symbolKinds {
		c.ob("C15", "listed", k+" builder", got[k], "-", "the function that makes the list of %ss was not found", strings.ToLower(k))
	}
}

// structField reads a field of a structure value by name.
func structField(x *Exec, v *Term, T types.Type, name string) *Term {
	st, ok := T.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return x.find(x.Field(v, T, i))
		}
	}
	return nil
}

// listOf gives the element type of a slice, through one structure.
func elemNamed(t types.Type, rel, name string) bool {
	s, ok := t.Underlying().(*types.Slice)
	return ok && isNamed(s.Elem(), rel, name)
}

// parts judges the functions that make arguments, parameters, properties and
// imports, the body of a symbol and a file.
func (c *madeCheck) parts() {
	p := c.p
	pos := func(f *ssa.Function) string { return p.pos(f.Pos()) }
	got := map[string]int{}
	for _, f := range p.funcs {
		if !inPkg(f, pkgPrs) || f.Signature.Recv() != nil || f.Parent() != nil || len(f.Blocks) == 0 || f.Signature.Results().Len() == 0 || !takesNode(f) {
			continue
		}
		t := f.Signature.Results().At(0).Type()
		switch {
		case isNamed(t, pkgPrs, "ArgList") || elemNamed(t, pkgPrs, "Arg"):
			got["Arg"]++
			A := p.named(pkgPrs, "Arg")
			c.list(f, "Arg", []string{"C17"}, func(w *buildWalk, x *Exec, el *Term) *Term {
				val := structField(x, el, A, "Value")
				if val == nil || val.op != OpExtract || val.args[0].op != OpCall || len(val.args[0].args) == 0 {
					return el
				}
				node, _ := partOf(x, val.args[0].args[0])
				if node == nil || !c.exprOf(x, val, node, "Value") {
					return el
				}
				name := structField(x, el, A, "Name")
				nn := x.fieldByName(node, p.named(pkgAst, "Arg"), "Name")
				has := x.truth(x.ts.Bin(token.EQL, nn, x.ts.Nil(), false))
				ok := has == yes && x.same(name, x.ts.Str("")) || has == no && textOf(x, name, node, w.srcParam(), "Name")
				c.ob("C17", "made", "Arg Name", ok, pos(f), "the name of an argument is not the one written")
				return node
			}, func(w *buildWalk, res *Term) *Term {
				if isNamed(t, pkgPrs, "ArgList") {
					return structField(w.x, w.x.find(w.first(res)), t, "Args")
				}
				return w.first(res)
			}, func(w *buildWalk, from *Term) bool {
				for i, q := range f.Params {
					if isNamed(q.Type(), pkgAst, "ArgList") {
						return w.x.find(from) == w.x.find(w.argList(i))
					}
					if elemNamed(q.Type(), pkgAst, "Arg") {
						return w.x.find(from) == w.x.find(w.args[i])
					}
				}
				return false
			})
		case elemNamed(t, pkgPrs, "Param"):
			got["Param"]++
			P := p.named(pkgPrs, "Param")
			c.list(f, "Param", []string{"C17"}, func(w *buildWalk, x *Exec, el *Term) *Term {
				node := nodeOfText(x, structField(x, el, P, "Name"), "Name")
				if node == nil {
					return el
				}
				d := structField(x, el, P, "DfltValue")
				nv := x.fieldByName(node, p.named(pkgAst, "Param"), "Value")
				has := x.truth(x.ts.Bin(token.EQL, nv, x.ts.Nil(), false))
				ok := c.exprOf(x, d, node, "Value") || has == yes && d.op == OpNil
				c.ob("C17", "made", "Param DfltValue", ok, pos(f), "the default of a parameter is not the expression written for it")
				return node
			}, func(w *buildWalk, res *Term) *Term { return w.first(res) },
				func(w *buildWalk, from *Term) bool {
					n, _ := w.nodeParam("Param")
					return w.x.find(from) == w.x.find(n)
				})
		case elemNamed(t, pkgPrs, "Import"):
			got["Import"]++
		case isNamed(t, pkgPrs, "PropContainer"):
			got["Body"]++
			c.body(f)
		}
	}
	c.ob("C17", "listed", "Arg builder", got["Arg"] > 0, "-", "the function that makes argument lists was not found")
	c.ob("C17", "listed", "Param builder", got["Param"] > 0, "-", "the function that makes parameter lists was not found")
	for _, q := range []string{"C06", "C07", "C09", "C15", "C22"} {
		c.ob(q, "listed", "Body builder", got["Body"] > 0, "-", "the function that makes bodies was not found")
	}
}

func (w *buildWalk) argList(i int) *Term {
	x := w.x
	t := w.f.Params[i].Type()
	return structField(x, x.find(w.args[i]), t, "Args")
}

// body judges the function that makes the properties and symbols of a body.
func (c *madeCheck) body(f *ssa.Function) {
	p := c.p
	pos := p.pos(f.Pos())
	P := p.named(pkgPrs, "Prop")
	n := 0
	walkBuilder(p, c.r, f, c.set, func(w *buildWalk, h *Hooks) {
		w.each.shot = func(x *Exec, el *Term) *Term {
			if el.op == OpStruct && types.Identical(el.typ, P) {
				node := nodeOfText(x, structField(x, el, P, "Name"), "Name")
				if node == nil {
					return el
				}
				v := structField(x, el, P, "Value")
				for _, q := range []string{"C06", "C07", "C22"} {
					c.ob(q, "made", "Prop Value", c.exprOf(x, v, node, "Value"), pos, "the value of a property is not the expression written for it")
				}
				return node
			}
			return el
		}
	}, func(w *buildWalk, res *Term) {
		x := w.x
		if !succeeded(x, f, res) {
			return
		}
		n++
		var node *Term
		for i, q := range f.Params {
			if isNamed(deref(q.Type()), pkgAst, "Body") {
				node = x.find(w.args[i])
			}
		}
		if node == nil {
			c.ob(c.r.prop, "listed", "Body", false, pos, "the body is not a parameter")
			return
		}
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			v := x.find(x.extract(res, i))
			if isNamed(t, pkgPrs, "PropContainer") {
				ok := w.madeOf(v, t, node, "Props", func(el *Term, from *Term) bool {
					return canonNode(x, el) == w.each.element(x, from, 0)
				})
				for _, q := range []string{"C06", "C07", "C09", "C22"} {
					c.ob(q, "listed", "Prop", ok, pos, "not every property that is written is kept")
				}
				continue
			}
			st, ok := t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			for j := 0; j < st.NumFields(); j++ {
				for _, k := range symbolKinds {
					u, ok := st.Field(j).Type().Underlying().(*types.Slice)
					if !ok || !isPtrTo(u.Elem(), pkgPrs, k) {
						continue
					}
					l := x.find(x.Field(v, t, j))
					good := w.madeOf(l, st.Field(j).Type(), node, k+"s", func(el, from *Term) bool {
						e, ok := elementOf(el)
						return ok && x.find(e) == from
					})
					for _, q := range []string{"C15", "C09"} {
						c.ob(q, "listed", "Body "+k, good, pos, "not every %s of a body is kept", strings.ToLower(k))
					}
				}
			}
		}
	})
	c.ob(c.r.prop, "listed", "Body made", n > 0, pos, "no body can be made")
}

// madeOf tells that the list was filled with one element for each of the nodes
// of the field: directly or through the list a builder made.
func (w *buildWalk) madeOf(l *Term, t types.Type, node *Term, field string, same func(el, from *Term) bool) bool {
	x := w.x
	src := func(from *Term) bool {
		if astPart(x, from, node, field) {
			return true
		}
		from = x.find(from)
		return from.op == OpExtract && from.aux == "0" && from.args[0].op == OpCall && len(from.args[0].args) > 0 && astPart(x, from.args[0].args[0], node, field)
	}
	if src(l) {
		return true
	}
	if from, ev := w.each.collected(x, l, t); ev != nil {
		return src(from) && same(ev.Args[1], x.find(from))
	}
	return false
}

// files judges the function that parses one file.
func (c *madeCheck) files() {
	p := c.p
	build := p.fn(pkgAst, "Build")
	n := 0
	for _, f := range p.funcs {
		if build == nil || !inPkg(f, pkgPrs) || len(f.Blocks) == 0 {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(ssa.CallInstruction); ok && ci.Common().StaticCallee() == build {
					n++
					c.file(f, build)
				}
			}
		}
	}
	for _, q := range []string{"C15", "C16", "C09"} {
		c.ob(q, "file", "parse", n > 0, "-", "no function was found that parses a file")
	}
}

func (c *madeCheck) file(f *ssa.Function, build *ssa.Function) {
	p := c.p
	pos := p.pos(f.Pos())
	n := 0
	imports := p.named(pkgPrs, "Import")
	walkBuilder(p, c.r, f, c.set, func(w *buildWalk, h *Hooks) {
		h.Call = func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, callee *ssa.Function, args []*Term) {
			if callee == nil || !c.set[callee] || scopeParam(callee) < 0 {
				return
			}
			a := x.find(peel(x.find(args[scopeParam(callee)])))
			ok := a.op == OpAlloc && isNamed(a.typ, pkgPrs, "File")
			c.ob("C15", "scope-passed", p.fname(f)+" to "+callee.Name(), ok, p.pos(in.Pos()), "%s is called for another scope: %s", callee.Name(), short(a))
		}
		h.Store = func(x *Exec, fr *Frame, in ssa.Instruction, addr, val *Term) {
			st, ok := in.(*ssa.Store)
			if !ok || addr.op != OpFieldAddr || !isNamed(st.Val.Type(), pkgPrs, "Scope") {
				return
			}
			if o := owner(addr); o.op == OpLoad {
				w.each.act(x, "scoped", o, x.find(peel(x.find(val))))
			}
		}
		h.MapSet = func(x *Exec, fr *Frame, in ssa.Instruction, m, k, v *Term) {
			mu, ok := in.(*ssa.MapUpdate)
			if !ok || !isNamed(mu.Value.Type(), pkgPrs, "Import") {
				return
			}
			fresh := false
			for l, t := range x.lits {
				fresh = fresh || !t && l.op == OpLookupOk && x.find(l.args[0]) == x.find(m) && x.find(l.args[1]) == x.find(k)
			}
			c.ob("C16", "import-name", p.fname(fr.fn), fresh, p.pos(in.Pos()), "an import may take the name of another")
			c.ob("C08", "import-name", p.fname(fr.fn), fresh, p.pos(in.Pos()), "an import may take the name of another")
			w.each.act(x, "import", m, k, canonNode(x, v))
		}
	}, func(w *buildWalk, res *Term) {
		x := w.x
		n++
		var pkg *Term
		for i, q := range f.Params {
			if isPtrTo(q.Type(), pkgPrs, "Package") {
				pkg = x.find(w.args[i])
			}
		}
		if pkg == nil {
			c.ob(c.r.prop, "file", "package", false, pos, "the package is not a parameter")
			return
		}
		// the file is kept once
		var file *Term
		kept := 0
		for _, e := range x.events {
			if e.Kind == "act" && e.Name == "collect" && e.Args[1].op == OpAlloc && isNamed(e.Args[1].typ, pkgPrs, "File") {
				a := e.Args[0]
				if a.op == OpFieldAddr && x.find(a.args[0]) == pkg {
					kept++
					file = e.Args[1]
				}
			}
		}
		for _, q := range []string{"C15", "C09", "C02"} {
			c.ob(q, "file", "kept", kept == 1, pos, "a parsed file is not added once to its package")
		}
		if file == nil {
			return
		}
		F := p.named(pkgPrs, "File")
		c.ob("C15", "file", "Pkg", x.find(x.fieldByName(file, F, "Pkg")) == pkg, pos, "the package of a file is another one")
		// the tree
		var ast *Term
		for _, e := range x.events {
			if e.Kind == "call" && strings.HasPrefix(e.Name, calleeName(p, build)) {
				for l := range x.lits {
					l.contains(func(t *Term) bool {
						if t.op == OpExtract && t.args[0].op == OpCall && strings.HasPrefix(t.args[0].aux, calleeName(p, build)) {
							ast = x.ts.mk(OpExtract, "0", nil, t.args[0])
						}
						return false
					})
				}
			}
		}
		if ast == nil {
			c.ob(c.r.prop, "file", "tree", false, pos, "the error of building the syntax tree is not looked at")
			return
		}
		src := func(l *Term, field string) bool {
			l = x.find(l)
			return l.op == OpExtract && l.aux == "0" && len(l.args[0].args) > 0 && astPart(x, l.args[0].args[0], ast, field)
		}
		direct := func(l *Term, field string) bool {
			l = x.find(l)
			return l.op == OpCall && len(l.args) > 0 && astPart(x, l.args[0], ast, field)
		}
		for _, k := range symbolKinds {
			scoped := w.each.done(x, "scoped", func(list *Term, args []*Term, el *Term) bool {
				l, ok := elementOf(args[0])
				return ok && x.find(l) == x.find(list) && src(list, k+"s") && x.find(args[1]) == file
			})
			added := w.each.done(x, "collect", func(list *Term, args []*Term, el *Term) bool {
				l, ok := elementOf(args[1])
				a := args[0]
				return ok && x.find(l) == x.find(list) && src(list, k+"s") && a.op == OpFieldAddr && strings.HasSuffix(a.aux, ":"+k+"s") && owner(a) == pkg
			})
			// nothing of the kind was written
			none := false
			for l := range x.lits {
				l.contains(func(t *Term) bool {
					if t.op == OpLen && (src(t.args[0], k+"s") || astPart(x, t.args[0], ast, k+"s")) && x.provesLE0(x.ts.Poly(t)) {
						none = true
					}
					return false
				})
			}
			c.ob("C15", "file", k+" scope", scoped == 1 || none, pos, "the scope of a %s of a file is not set once to the file", strings.ToLower(k))
			for _, q := range []string{"C15", "C09"} {
				c.ob(q, "file", k+" added", added == 1 || none, pos, "a %s of a file is not added once to the package", strings.ToLower(k))
			}
		}
		// imports
		m := x.find(x.fieldByName(file, F, "Imports"))
		imp := w.each.done(x, "import", func(list *Term, args []*Term, el *Term) bool {
			l, ok := el.args[0], direct(list, "Imports") || src(list, "Imports")
			nd, fd := partOf(x, args[1])
			return ok && x.find(l) == x.find(list) && x.find(args[0]) == m && args[2] == el && nd == el && fd == "Name"
		})
		none := false
		for l := range x.lits {
			l.contains(func(t *Term) bool {
				if t.op == OpLen && (direct(t.args[0], "Imports") || astPart(x, t.args[0], ast, "Imports")) && x.provesLE0(x.ts.Poly(t)) {
					none = true
				}
				return false
			})
		}
		for _, q := range []string{"C16", "C15"} {
			c.ob(q, "file", "imports", imp == 1 || none, pos, "an import of a file is not kept once under its name")
		}
	})
	_ = imports
	c.ob(c.r.prop, "file", "made", n > 0, pos, "no file can be parsed")
}
