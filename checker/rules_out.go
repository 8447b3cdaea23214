package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C04: what reaches standard output and how the program ends.

var stdoutFuncs = map[string]bool{
	"fmt.Print": true, "fmt.Printf": true, "fmt.Println": true, "syscall.Write": true, "os.NewFile": true,
}

var fileFuncs = map[string]int{ // with the argument that names the file
	"os.Create": 0, "os.OpenFile": 0, "os.WriteFile": 0, "os.Rename": 1, "os.Remove": 0, "os.RemoveAll": 0, "os.Mkdir": 0, "os.MkdirAll": 0,
	"os.Truncate": 0, "os.Symlink": 1, "os.Link": 1, "os.Chmod": 0, "os.Chtimes": 0, "os.CreateTemp": 0, "os.MkdirTemp": 0,
	"io/ioutil.WriteFile": 0, "ioutil.WriteFile": 0, "ioutil.TempFile": 0, "ioutil.TempDir": 0, "syscall.Open": 0, "syscall.Unlink": 0,
}

func isStdout(v ssa.Value) bool {
	g, ok := v.(*ssa.Global)
	return ok && g.Pkg.Pkg.Path() == "os" && g.Name() == "Stdout"
}

// stdoutSite tells why in may write to standard output, or "".
func stdoutSite(p *Prog, in ssa.Instruction) string {
	if c, ok := in.(ssa.CallInstruction); ok {
		if f := c.Common().StaticCallee(); f != nil && stdoutFuncs[calleeName(p, f)] {
			return calleeName(p, f)
		}
	}
	for _, op := range in.Operands(nil) {
		if f, ok := (*op).(*ssa.Function); ok && stdoutFuncs[calleeName(p, f)] {
			return calleeName(p, f)
		}
		if !isStdout(*op) {
			continue
		}
		// asking for the descriptor only writes nothing
		if u, ok := in.(*ssa.UnOp); ok {
			plain := true
			for _, r := range realRefs(u) {
				c, ok := r.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil {
					plain = false
					continue
				}
				switch c.Call.StaticCallee().Name() {
				case "Fd", "Stat", "Name":
				default:
					plain = false
				}
			}
			if plain {
				continue
			}
		}
		return "os.Stdout"
	}
	return ""
}

// infoFunc: f prints what was asked for and ends the program successfully.
func infoFunc(p *Prog, f *ssa.Function) bool {
	for _, b := range f.Blocks {
		switch t := b.Instrs[len(b.Instrs)-1].(type) {
		case *ssa.Return:
			// only behind an exit
			exit := false
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && calleeName(p, c.Call.StaticCallee()) == "os.Exit" {
					exit = true
				}
			}
			if !exit {
				return false
			}
		case *ssa.Panic:
			_ = t
		}
	}
	return true
}

func mainFunc(p *Prog) *ssa.Function {
	for rel, s := range p.spkg {
		if strings.HasPrefix(rel, "cmd/") && s.Pkg.Name() == "main" {
			return s.Func("main")
		}
	}
	return nil
}

func checkOutput(p *Prog, r *Report) {
	m := mainFunc(p)
	if m == nil {
		r.missing("the main function")
		return
	}
	inMain := func(f *ssa.Function) bool { return pkgOf(f) == pkgOf(m) }
	argsPkg := "internal/args"
	// Every site of the program.
	for _, f := range p.funcs {
		r.funcs[p.fname(f)] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				pos := p.pos(in.Pos())
				if s := stdoutSite(p, in); s != "" {
					ok := inMain(f) || inPkg(f, argsPkg) && infoFunc(p, f)
					r.ob("stdout-writer", p.fname(f)+" uses "+s, ok, pos, "%s writes to standard output", p.fname(f))
				}
				c, isC := in.(ssa.CallInstruction)
				if !isC || c.Common().StaticCallee() == nil {
					continue
				}
				n := calleeName(p, c.Common().StaticCallee())
				switch n {
				case "os.Exit":
					k, isK := c.Common().Args[0].(*ssa.Const)
					ok := isK && (k.Int64() != 0 || inPkg(f, argsPkg) && infoFunc(p, f))
					r.ob("exit-status", p.fname(f), ok, pos, "%s may end the program with status 0 without a result", p.fname(f))
				case "log.SetOutput":
					ok := false
					if mi, isM := c.Common().Args[0].(*ssa.MakeInterface); isM {
						ok = p.inRepoType(mi.X.Type()) || isStderr(c.Common().Args[0])
					} else {
						ok = isStderr(c.Common().Args[0])
					}
					r.ob("log-output", p.fname(f), ok, pos, "diagnostics do not go to standard error")
				}
				if strings.HasPrefix(n, "log.Fatal") || strings.HasPrefix(n, "log.Panic") {
					r.ob("failure-reported", p.fname(f)+" at "+n, !startsDebug(c.Common()), pos, "the message of a failure is treated as a debug message")
				}
				if _, isF := fileFuncs[n]; isF && !inMain(f) {
					r.bad("files", p.fname(f)+" calls "+n, pos, "%s writes or removes files", p.fname(f))
				}
			}
		}
	}
	checkLogger(p, r, m)
	checkInfoRequested(p, r, argsPkg)
	// The paths of main.
	x := newExec(p, Hooks{})
	instantiate := p.fn("internal/ins", "Instantiate")
	if instantiate == nil {
		r.missing("ins.Instantiate")
		return
	}
	reg := registerify(p)
	if reg == nil {
		r.missing("the function that registerifies the bus")
		return
	}
	phases := map[string]string{
		calleeName(p, instantiate): "instantiation", calleeName(p, reg): "registerification",
	}
	for rel, n := range map[string]string{"internal/args": "Parse", pkgPrs: "ParsePackages"} {
		if f := p.fn(rel, n); f != nil {
			phases[calleeName(p, f)] = n
		} else {
			r.missing(rel + "." + n)
		}
	}
	if f := p.fn(pkgPrs, "DiscoverPackages"); f != nil {
		phases[calleeName(p, f)] = "discovery"
	}
	isOut := func(e Event) bool { return e.Kind == "call" && outCall(x, e) }
	writes := func() []int {
		var out []int
		for i, e := range x.events {
			if isOut(e) {
				out = append(out, i)
			}
		}
		return out
	}
	x.h = Hooks{
		OpaqueCall: func(x *Exec, f *ssa.Function, args []*Term) bool { return !inMain(f) },
		Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, f *ssa.Function, args []*Term) {
			pos := p.pos(in.Pos())
			if i, ok := fileFuncs[name]; ok {
				a := x.find(args[i])
				okName := a.op == OpLoad && a.args[0].op == OpGlobal && strings.Contains(a.args[0].aux, "args.")
				asked := okName && x.truth(x.ts.Bin(token.EQL, a, x.ts.Str(""), false)) == no
				r.ob("files", "main calls "+name, okName && asked, pos, "main writes a file the user did not ask for")
			}
			if ph, ok := phases[name]; ok {
				r.ob("stdout-last", "before "+ph, len(writes()) == 0, pos, "something is written to standard output before %s", ph)
			}
		},
		Exit: func(x *Exec, fr *Frame, in ssa.Instruction, name string, args []*Term) {
			ws := writes()
			if name == "os.Exit" {
				if k, ok := x.find(args[0]).intVal(); !ok || k == 0 {
					r.bad("exit-status", "main", p.pos(in.Pos()), "main may end the program with status 0 without a result")
				}
			}
			if len(ws) == 0 {
				r.ob("stdout-on-failure", "main", true, p.pos(in.Pos()), "")
				return
			}
			// the write itself failed
			failed := false
			for l, t := range x.lits {
				if l.op == OpBin && l.aux == "==" && (l.args[0].op == OpNil || l.args[1].op == OpNil) && l.contains(func(s *Term) bool { return s.op == OpCall && strings.HasPrefix(s.aux, x.events[ws[0]].Name) }) {
					failed = failed || !t
				}
			}
			r.ob("stdout-on-failure", "main", failed && len(ws) == 1, p.pos(in.Pos()), "the program fails after something has been written to standard output")
		},
	}
	nret := 0
	x.run(m, nil, func(fr *Frame, res *Term) {
		nret++
		pos := p.pos(m.Pos())
		ws := writes()
		r.ob("stdout-once", "main", len(ws) == 1, pos, "a successful run writes %d times to standard output", len(ws))
		if len(ws) != 1 {
			return
		}
		w := x.events[ws[0]]
		wpos := p.pos(w.Pos)
		seen := map[string]bool{}
		var bus *Term
		for i, e := range x.events {
			if ph, ok := phases[e.Name]; ok && e.Kind == "call" {
				seen[ph] = seen[ph] || i < ws[0]
			}
		}
		for n, ph := range phases {
			if ph == "registerification" && x.truthNilBus(instantiate) {
				continue
			}
			_ = n
			r.ob("all-phases", ph, seen[ph], wpos, "there is a successful run without %s", ph)
		}
		_ = bus
		js := false
		for _, a := range w.Args {
			a := x.find(a)
			if el, ok := x.varargs(a); ok {
				a = x.ts.mk(OpTuple, "varargs", nil, el...)
			}
			a.contains(func(t *Term) bool {
				if t.op == OpCall && (strings.HasPrefix(t.aux, "encoding/json.Marshal") || strings.HasPrefix(t.aux, "json.Marshal")) {
					b := peel(x.find(t.args[0]))
					if b.op == OpExtract && b.args[0].op == OpCall && strings.HasPrefix(b.args[0].aux, calleeName(p, instantiate)) && b.aux == "0" {
						js = true
					}
				}
				return false
			})
		}
		r.ob("stdout-is-result", "main", js, wpos, "what is written to standard output is not the JSON of the registerified bus")
	})
	r.ob("stdout-once", "paths", nret > 0, p.pos(m.Pos()), "main never returns")
	r.done(x, "main")
	for _, rule := range []string{"stdout-writer", "exit-status", "log-output", "failure-reported", "stdout-once", "stdout-on-failure", "stdout-is-result", "logger", "files"} {
		r.floor(rule, 1)
	}
	r.explain = "every place that can write to standard output or to a file, or end the program, is enumerated; all paths of main are walked"
}

// outCall: the call e may write to standard output.
func outCall(x *Exec, e Event) bool {
	if stdoutFuncs[e.Name] {
		return true
	}
	for _, a := range e.Args {
		a := peel(x.find(a))
		if a.contains(func(t *Term) bool { return t.op == OpGlobal && strings.HasSuffix(t.aux, "os.Stdout") }) && !strings.HasSuffix(e.Name, ").Fd") {
			return true
		}
	}
	return false
}

// checkInfoRequested: standard output gets a text, and the program ends
// successfully, only where an argument is the option that asks for it.
func checkInfoRequested(p *Prog, r *Report, argsPkg string) {
	f := p.fn(argsPkg, "Parse")
	if f == nil {
		return
	}
	x := newExec(p, Hooks{})
	check := func(in ssa.Instruction, what string) {
		asked := false
		for l, t := range x.lits {
			if !t || l.op != OpBin || l.aux != "==" {
				continue
			}
			for i := range l.args {
				if s, ok := l.args[i].strVal(); ok && (s == "-help" || s == "-version") {
					if _, k := l.args[1-i].strVal(); !k {
						asked = true
					}
				}
			}
		}
		r.ob("text-on-request", p.fname(in.Parent())+" "+what, asked, p.pos(in.Pos()), "the program %s though neither help nor version was requested", what)
	}
	x.h = Hooks{
		OpaqueCall: func(x *Exec, g *ssa.Function, args []*Term) bool { return !inPkg(g, argsPkg) },
		Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, g *ssa.Function, args []*Term) {
			if outCall(x, Event{Kind: "call", Name: name, Args: args}) {
				check(in, "writes to standard output")
			}
		},
		Exit: func(x *Exec, fr *Frame, in ssa.Instruction, name string, args []*Term) {
			if name == "os.Exit" {
				if k, ok := x.find(args[0]).intVal(); !ok || k == 0 {
					check(in, "ends with status 0")
				}
			}
		},
	}
	x.run(f, nil, func(fr *Frame, res *Term) {})
	r.done(x, p.fname(f))
	r.floor("text-on-request", 2)
}

// truthNilBus: on this path the bus is known to be nil.
func (x *Exec) truthNilBus(inst *ssa.Function) bool {
	for l, t := range x.lits {
		if t && l.op == OpBin && l.aux == "==" && (l.args[0].op == OpNil || l.args[1].op == OpNil) {
			o := l.args[0]
			if o.op == OpNil {
				o = l.args[1]
			}
			if o.op == OpExtract && o.aux == "0" && strings.HasPrefix(o.args[0].aux, calleeName(x.p, inst)) {
				return true
			}
		}
	}
	return false
}

func (p *Prog) inRepoType(t types.Type) bool {
	n, ok := types.Unalias(deref(t)).(*types.Named)
	return ok && n.Obj().Pkg() != nil && strings.HasPrefix(n.Obj().Pkg().Path(), p.mod)
}

// startsDebug: the constant message of a call starts like a debug message.
func startsDebug(cc *ssa.CallCommon) bool {
	for _, a := range cc.Args {
		if k, ok := a.(*ssa.Const); ok && k.Value != nil && strings.HasPrefix(strings.Trim(k.Value.ExactString(), `"`), "debug") {
			return true
		}
	}
	return false
}

// checkLogger: the writer the messages are sent to passes them to standard error.
func checkLogger(p *Prog, r *Report, m *ssa.Function) {
	n := 0
	for _, f := range p.funcs {
		if f.Name() != "Write" || f.Signature.Recv() == nil || pkgOf(f) != pkgOf(m) || f.Synthetic != "" {
			continue
		}
		n++
		x := newExec(p, Hooks{OpaqueCall: func(x *Exec, g *ssa.Function, args []*Term) bool { return pkgOf(g) != pkgOf(m) }})
		pos := p.pos(f.Pos())
		msg := x.params(f)[1]
		x.run(f, x.params(f), func(fr *Frame, res *Term) {
			written := false
			for _, e := range x.events {
				if e.Kind == "call" && outCall(x, e) {
					r.bad("logger", p.fname(f)+" destination", p.pos(e.Pos), "diagnostics may go to standard output")
				}
				if e.Kind != "call" || len(e.Args) < 2 {
					continue
				}
				dst := x.find(e.Args[0]).contains(func(t *Term) bool { return t.op == OpGlobal && strings.HasSuffix(t.aux, "os.Stderr") })
				src := false
				for _, a := range e.Args[1:] {
					a := x.find(a)
					if el, ok := x.varargs(a); ok {
						a = x.ts.mk(OpTuple, "varargs", nil, el...)
					}
					src = src || a.contains(func(t *Term) bool { return x.find(t) == msg })
				}
				written = written || dst && src
			}
			debug := false
			for l, t := range x.lits {
				if t && l.contains(func(s *Term) bool {
					v, ok := s.strVal()
					return ok && strings.HasPrefix(v, "debug")
				}) && l.has(msg) {
					debug = true
				}
			}
			r.ob("logger", p.fname(f), written || debug, pos, "a message that is not a debug message may not reach standard error")
			if res.op == OpTuple {
				r.ob("logger", p.fname(f)+" result", x.find(res.args[1]).op == OpNil || res.args[1].op == OpExtract, pos, "the logger answers an error")
			}
		})
		r.done(x, p.fname(f))
	}
	if n == 0 {
		r.ob("logger", "standard", true, "-", "")
	}
}

func init() { checks["C04"] = checkOutput }
