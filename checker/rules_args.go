package main

import (
	"go/constant"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C05: the options of the command line.

// What the settings are for: option -> the effect its setting has in main.
var optionEffects = map[string]string{
	"-main": "name of the main bus", "-add-timestamp": "timestamp", "-debug": "debug messages", "-c": "constants dump",
}

type argStore struct {
	setting string
	option  string         // option met in this iteration
	value   string         // "true", "arg", "const:…"
	lits    map[*Term]bool // what the state of the loop was assumed to be
	pos     string
}

type argArm struct {
	option string
	end    map[*Term]*Term
	stored bool
}

func checkArgs(p *Prog, r *Report) {
	const argsPkg = "internal/args"
	parse := p.fn(argsPkg, "Parse")
	if parse == nil {
		r.missing("args.Parse")
		return
	}
	settingOf := func(addr *Term) string {
		if addr.op != OpGlobal {
			return ""
		}
		if i := strings.Index(addr.aux, argsPkg+"."); i >= 0 {
			return addr.aux[i+len(argsPkg)+1:]
		}
		return ""
	}
	x := newExec(p, Hooks{})
	isArg := func(t *Term) bool {
		return t.contains(func(s *Term) bool { return s.op == OpGlobal && strings.HasSuffix(s.aux, "os.Args") })
	}
	// argument of this iteration and the option it is known to equal
	optionMet := func() string {
		best := ""
		for l, t := range x.lits {
			if !t || l.op != OpBin || l.aux != "==" {
				continue
			}
			for i := range l.args {
				if s, ok := l.args[i].strVal(); ok && strings.HasPrefix(s, "-") && isArg(l.args[1-i]) {
					best = s
				}
			}
		}
		return best
	}
	cells := map[*Term]types.Type{}
	var stores []argStore
	var arms []argArm
	accepted := map[string]bool{}
	// Loop states at the start and after every iteration, and the states in
	// which something bad would happen: it does only if one of them fits.
	type transition struct {
		lits   map[*Term]bool
		end    map[*Term]*Term
		option string
	}
	var states []map[*Term]*Term
	var trans []transition
	stateLits := func() map[*Term]bool {
		m := map[*Term]bool{}
		for l, t := range x.lits {
			if !isArg(l) && l.contains(func(s *Term) bool { return stateKey(s) != nil }) {
				m[l] = t
			}
		}
		return m
	}
	type suspect struct {
		lits                         map[*Term]bool
		rule, construct, pos, format string
	}
	var suspects []suspect
	suspectHere := func(rule, construct, pos, format string) {
		s := suspect{stateLits(), rule, construct, pos, format}
		suspects = append(suspects, s)
	}
	snapshot := func() map[*Term]*Term {
		m := map[*Term]*Term{}
		for c, t := range cells {
			m[c] = x.find(x.load(c, t))
			if isBool(t) {
				switch x.truth(m[c]) {
				case yes:
					m[c] = x.ts.Bool(true)
				case no:
					m[c] = x.ts.Bool(false)
				}
			}
		}
		return m
	}
	x.h = Hooks{
		OpaqueCall: func(x *Exec, g *ssa.Function, args []*Term) bool { return !inPkg(g, argsPkg) },
		LoopEnter: func(x *Exec, fr *Frame, lc *loopCtx) {
			if fr.fn != parse {
				return
			}
			m := map[*Term]*Term{}
			for c := range cells {
				if v, ok := lc.pre[c]; ok {
					m[c] = v.v
				} else {
					m[c] = x.find(x.load(c, cells[c]))
				}
			}
			for ph, v := range lc.phi {
				if stateKey(v) != nil {
					m[v] = lc.entry[ph]
				}
			}
			states = append(states, m)
		},
		Store: func(x *Exec, fr *Frame, in ssa.Instruction, addr, v *Term) {
			if st, ok := in.(*ssa.Store); ok && addr.op == OpAlloc {
				if _, b := st.Val.Type().Underlying().(*types.Basic); b {
					cells[addr] = st.Val.Type()
				}
			}
			s := settingOf(addr)
			if s == "" {
				return
			}
			v = x.find(v)
			as := argStore{setting: s, option: optionMet(), pos: p.pos(in.Pos())}
			switch {
			case v.op == OpConst && v.cv.Kind() == constant.Bool:
				as.value = v.cv.ExactString()
			case v.op == OpConst:
				as.value = "const:" + v.String()
			case isArg(v):
				as.value = "arg"
			default:
				as.value = v.String()
			}
			x.event(Event{Kind: "setting", Name: s, Args: []*Term{v}, Pos: in.Pos()})
			as.lits = stateLits()
			stores = append(stores, as)
		},
		Panic: func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
			suspectHere("no-crash", p.fname(fr.fn), p.pos(in.Pos()), "the option '"+optionMet()+"' makes the program panic")
		},
		BackEdge: func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
			if fr.fn != parse {
				return
			}
			o := optionMet()
			taken := o != ""
			for i := len(x.events) - 1; i >= lc.evMark && i >= 0; i-- {
				if x.events[i].Kind == "setting" && len(x.events[i].Args) == 1 && isArg(x.events[i].Args[0]) {
					taken = true
				}
			}
			r.ob("unknown-rejected", p.fname(fr.fn), true, "", "")
			if !taken {
				suspectHere("unknown-rejected", p.fname(fr.fn), p.pos(parse.Pos()), "an argument that is no option and no value is silently ignored")
			}
			end := snapshot()
			for ph, v := range lc.phi {
				if stateKey(v) != nil {
					end[v] = x.find(next[ph])
					if isBool(ph.Type()) {
						switch x.truth(next[ph]) {
						case yes:
							end[v] = x.ts.Bool(true)
						case no:
							end[v] = x.ts.Bool(false)
						}
					}
				}
			}
			last := false // the main file ends the command line
			for i := len(x.events) - 1; i >= lc.evMark && i >= 0; i-- {
				last = last || x.events[i].Kind == "setting" && x.events[i].Name == "MainFile"
			}
			if !last {
				trans = append(trans, transition{stateLits(), end, o})
			}
			if o == "" {
				return
			}
			a := argArm{option: o, end: end}
			for i := len(x.events) - 1; i >= lc.evMark && i >= 0; i-- {
				if x.events[i].Kind == "setting" {
					a.stored = true
				}
			}
			arms = append(arms, a)
			accepted[o] = true
		},
		Exit: func(x *Exec, fr *Frame, in ssa.Instruction, name string, args []*Term) {
			if o := optionMet(); name == "os.Exit" && o != "" {
				accepted[o] = true
			}
		},
	}
	nret := 0
	x.run(parse, nil, func(fr *Frame, res *Term) {
		nret++
		for name, d := range map[string]string{"MainFile": "the path of the main file", "MainBus": "the name of the main bus"} {
			g := p.global(argsPkg, name)
			if g == nil {
				r.missing("args." + name)
				continue
			}
			v := x.find(x.load(x.ts.mk(OpGlobal, x.val(fr, g).aux, nil), types.Typ[types.String]))
			if x.val(fr, g).op == OpGlobal {
				v = x.find(x.load(x.val(fr, g), types.Typ[types.String]))
			}
			ok := false
			if s, is := v.strVal(); is {
				ok = s != ""
				if name == "MainBus" {
					ok = s == "main"
				}
			} else {
				ok = x.eq(v, x.ts.Str("")) == no
			}
			r.ob("settings-complete", name, ok, p.pos(parse.Pos()), "the arguments may be accepted without %s", d)
		}
	})
	r.done(x, p.fname(parse))
	r.ob("settings-complete", "paths", nret > 0, p.pos(parse.Pos()), "no command line is accepted")

	// all states the loop can be in
	seen := map[string]int{}
	made := map[int]map[string]bool{} // state -> options that lead to it
	name := func(m map[*Term]*Term) string {
		var out []string
		for c, v := range m {
			out = append(out, c.String()+"="+v.String())
		}
		sort.Strings(out)
		return strings.Join(out, ";")
	}
	for i := 0; i < len(states) && i < 10000; i++ {
		for _, t := range trans {
			if !consistent(states[i], t.lits) {
				continue
			}
			n := map[*Term]*Term{}
			for c, v := range t.end {
				n[c] = v
				if k := stateKey(v); k != nil && states[i][k] != nil {
					n[c] = states[i][k]
				}
			}
			k := name(n)
			j, ok := seen[k]
			if !ok {
				j = len(states)
				seen[k] = j
				states = append(states, n)
				made[j] = map[string]bool{}
			}
			made[j][t.option] = true
		}
	}
	for _, s := range suspects {
		fits := false
		for _, st := range states {
			fits = fits || consistent(st, s.lits)
		}
		r.ob(s.rule, s.construct, !fits, s.pos, "%s", s.format)
	}
	// option -> setting
	of := map[string]map[string]bool{}
	from := map[string]map[string]bool{}
	link := func(o, s string) {
		if of[o] == nil {
			of[o] = map[string]bool{}
		}
		if from[s] == nil {
			from[s] = map[string]bool{}
		}
		of[o][s], from[s][o] = true, true
	}
	// the parameter that waits for its value in a state
	stateName := func(lits map[*Term]bool) string {
		names := map[string]bool{}
		for _, st := range states {
			if !consistent(st, lits) {
				continue
			}
			n := ""
			for _, v := range st {
				if c, ok := v.strVal(); ok && strings.HasPrefix(c, "-") {
					n = c
				}
			}
			names[n] = true
		}
		if len(names) == 1 {
			for n := range names {
				return n
			}
		}
		return ""
	}
	for _, s := range stores {
		o := s.option
		val := ""
		if s.value == "arg" {
			val = stateName(s.lits)
			if val == "" {
				r.ob("value-stored", s.setting, s.setting == "MainFile", s.pos, "the setting gets an argument that belongs to no parameter")
				continue
			}
			r.ob("value-stored", s.setting, o == "", s.pos, "the option '%s' is taken for the value of '%s'", o, val)
			link(val, s.setting)
			// an occurrence of the parameter leads here
			reach := false
			for i, st := range states {
				reach = reach || made[i][val] && consistent(st, s.lits)
			}
			r.ob("value-taken", val, reach, s.pos, "the argument after '%s' is not taken as its value", val)
			continue
		}
		if o == "" { // default
			continue
		}
		link(o, s.setting)
		_, isFlag := x.boolConst(s.value)
		if isFlag {
			r.ob("flag-stored", o, s.value == "true", s.pos, "the flag '%s' stores %s", o, s.value)
		}
	}
	for _, s := range stores {
		if s.setting != "MainFile" || s.value != "arg" {
			continue
		}
		// never while a parameter still waits for its value
		for _, w := range stores {
			n := stateName(w.lits)
			must := len(of[n]) > 0
			for _, a := range arms { // the parameter has a default value
				if a.option == n && a.stored {
					must = false
				}
			}
			contra := true
			for _, st := range states {
				if consistent(st, s.lits) && consistent(st, w.lits) {
					contra = false
				}
			}
			if must {
				r.ob("value-required", n, contra, s.pos, "the last argument is taken for the main file though '%s' waits for its value", n)
			}
		}
	}
	for o := range accepted {
		if o == "-help" || o == "-version" {
			continue
		}
		r.ob("option-stored", o, len(of[o]) == 1, p.pos(parse.Pos()), "the option '%s' is stored into %d settings", o, len(of[o]))
		for s := range of[o] {
			r.ob("own-setting", o, len(from[s]) == 1, p.pos(parse.Pos()), "the setting %s belongs to several options", s)
		}
	}
	for _, a := range arms {
		waits := false
		for _, v := range a.end {
			if c, ok := v.strVal(); ok && c == a.option {
				waits = true
			}
		}
		if !a.stored {
			r.ob("every-occurrence", a.option, waits, p.pos(parse.Pos()), "the option '%s' has no effect in some position", a.option)
		} else {
			r.ob("every-occurrence", a.option, true, "", "")
		}
	}
	// the help text
	doc := map[string]bool{}
	re := regexp.MustCompile(`(?m)^\s+(-[a-z][a-z-]*)\b`)
	text := p.helpText(argsPkg)
	if text == "" {
		r.missing("the help text")
	}
	for _, m := range re.FindAllStringSubmatch(text, -1) {
		doc[m[1]] = true
	}
	for o := range accepted {
		r.ob("documented", o, doc[o], p.pos(parse.Pos()), "the option '%s' is accepted but not in the help text", o)
	}
	for o := range doc {
		r.ob("accepted", o, accepted[o], p.pos(parse.Pos()), "the option '%s' of the help text is not accepted", o)
	}
	for o := range optionEffects {
		r.ob("accepted", o, accepted[o], p.pos(parse.Pos()), "the option '%s' is not accepted", o)
	}
	for _, o := range []string{"-help", "-version"} {
		r.ob("accepted", o, accepted[o], p.pos(parse.Pos()), "the option '%s' is not accepted", o)
	}
	effects := settingEffects(p, r)
	var os []string
	for o := range accepted {
		os = append(os, o)
	}
	sort.Strings(os)
	for _, o := range os {
		if o == "-help" || o == "-version" {
			continue
		}
		for s := range of[o] {
			e := effects[s]
			want := optionEffects[o]
			if want == "" {
				r.ob("consulted", o, len(e) > 0, p.pos(parse.Pos()), "the value of the option '%s' is never consulted", o)
				continue
			}
			r.ob("consulted", o, e[want], p.pos(parse.Pos()), "the setting of the option '%s' does not decide the %s", o, want)
			for k := range e {
				r.ob("consulted", o+" for "+k, k == want, p.pos(parse.Pos()), "the setting of the option '%s' decides the %s", o, k)
			}
		}
	}
	if e := effects["MainFile"]; !e["main file"] {
		r.bad("consulted", "main file", p.pos(parse.Pos()), "the main file given is not the one compiled")
	} else {
		r.ob("consulted", "main file", true, "", "")
	}
	for rule, n := range map[string]int{"documented": 6, "accepted": 6, "consulted": 5, "flag-stored": 2, "value-stored": 2, "unknown-rejected": 1, "option-stored": 4, "value-required": 1, "value-taken": 1} {
		r.floor(rule, n)
	}
	r.explain = "every iteration of the argument loop and all paths of main are walked; options, settings and effects are joined by the constants compared and the globals stored"
}

func (x *Exec) boolConst(s string) (bool, bool) {
	return s == "true", s == "true" || s == "false"
}

// helpText is the constant text that describes the options.
func (p *Prog) helpText(rel string) string {
	best := ""
	for _, f := range p.funcs {
		if !inPkg(f, rel) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						s := constant.StringVal(k.Value)
						if strings.Contains(s, "-help") && strings.Contains(s, "\n") && len(s) > len(best) {
							best = s
						}
					}
				}
			}
		}
	}
	if best == "" {
		for _, s := range p.initStrings(rel) {
			if strings.Contains(s, "-help") && len(s) > len(best) {
				best = s
			}
		}
	}
	return best
}

// initStrings are the string constants of the initialiser of a package.
func (p *Prog) initStrings(rel string) []string {
	var out []string
	s := p.spkg[rel]
	if s == nil {
		return nil
	}
	for _, m := range s.Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Name() != "init" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if k, ok := (*op).(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String {
						out = append(out, constant.StringVal(k.Value))
					}
				}
			}
		}
	}
	return out
}

// settingEffects tells what main does with every setting.
func settingEffects(p *Prog, r *Report) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	m := mainFunc(p)
	if m == nil {
		r.missing("the main function")
		return out
	}
	add := func(s, e string) {
		if out[s] == nil {
			out[s] = map[string]bool{}
		}
		out[s][e] = true
	}
	setting := func(t *Term) string {
		if t.op == OpLoad && t.args[0].op == OpGlobal {
			if i := strings.Index(t.args[0].aux, "args."); i >= 0 {
				return t.args[0].aux[i+5:]
			}
		}
		return ""
	}
	inst, reg := p.fn("internal/ins", "Instantiate"), registerify(p)
	disc := p.fn(pkgPrs, "DiscoverPackages")
	if inst == nil || reg == nil || disc == nil {
		r.missing("the phases of the compiler")
		return out
	}
	parsed := func(x *Exec) bool {
		for _, e := range x.events {
			if e.Kind == "call" && strings.HasSuffix(e.Name, "args.Parse") {
				return true
			}
		}
		return false
	}
	printVars := map[string]string{} // global of main -> setting stored into it
	x := newExec(p, Hooks{
		OpaqueCall: func(x *Exec, g *ssa.Function, args []*Term) bool { return pkgOf(g) != pkgOf(m) },
		Store: func(x *Exec, fr *Frame, in ssa.Instruction, addr, v *Term) {
			if addr.op == OpGlobal {
				if s := setting(x.find(v)); s != "" && parsed(x) {
					printVars[addr.aux] = s
				}
			}
		},
		Call: func(x *Exec, fr *Frame, in ssa.CallInstruction, name string, f *ssa.Function, args []*Term) {
			if !parsed(x) {
				return
			}
			arg := func(i int, e string) {
				if i < len(args) {
					s := setting(x.find(args[i]))
					if s != "" {
						add(s, e)
					}
					r.ob("always-consulted", e, s != "", p.pos(in.Pos()), "there is a run in which no option decides the %s", e)
				}
			}
			switch name {
			case calleeName(p, inst):
				arg(1, "name of the main bus")
			case calleeName(p, reg):
				arg(1, "timestamp")
			case calleeName(p, disc):
				arg(0, "main file")
			default:
				if i, ok := fileFuncs[name]; ok {
					arg(i, "constants dump")
				}
			}
		},
	})
	x.run(m, nil, func(fr *Frame, res *Term) {})
	r.done(x, "main")
	// what the logger consults
	for _, f := range p.funcs {
		if pkgOf(f) != pkgOf(m) || f.Signature.Recv() == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				u, ok := in.(*ssa.UnOp)
				if !ok {
					continue
				}
				g, ok := u.X.(*ssa.Global)
				if !ok {
					continue
				}
				if inRel(g.Pkg.Pkg, "internal/args") {
					add(g.Name(), "debug messages")
				}
				for v, s := range printVars {
					if strings.HasSuffix(v, g.Name()) {
						add(s, "debug messages")
					}
				}
			}
		}
	}
	// any other use
	for _, f := range p.funcs {
		if inPkg(f, "internal/args") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if u, ok := in.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok && inRel(g.Pkg.Pkg, "internal/args") && out[g.Name()] == nil {
						add(g.Name(), "something else")
					}
				}
			}
		}
	}
	return out
}

func inRel(tp *types.Package, rel string) bool { return strings.HasSuffix(tp.Path(), rel) }

func init() { checks["C05"] = checkArgs }

// consistent: the values st of the variables do not contradict lits.
func consistent(st map[*Term]*Term, lits map[*Term]bool) bool {
	for l, t := range lits {
		if k := stateKey(l); k != nil {
			if v := st[k]; v != nil && v.op == OpConst && v.isTrue() != t {
				return false
			}
		}
		if l.op == OpBin && l.aux == "==" {
			for i := range l.args {
				if c, u := l.args[i], l.args[1-i]; c.op == OpConst && stateKey(u) != nil {
					if v := st[stateKey(u)]; v != nil && v.op == OpConst && (v == c) != t {
						return false
					}
				}
			}
		}
	}
	return true
}

// stateKey identifies a variable carried from one iteration to the next.
func stateKey(t *Term) *Term {
	if t.op == OpLoad && t.args[0].op == OpAlloc {
		return t.args[0]
	}
	if t.op == OpSym && strings.Contains(t.aux, "@loop") {
		return t
	}
	return nil
}
