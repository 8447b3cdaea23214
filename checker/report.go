package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// Obligation is one instance of a rule.
type Obligation struct {
	Rule, Construct string
	OK              bool
	Pos, Msg        string
}

// Report collects what one check decided.
type Report struct {
	prop    string
	p       *Prog
	tier    string
	obs     map[string]*Obligation
	order   []string
	floors  map[string]int
	funcs   map[string]bool
	paths   int
	steps   int
	notes   []string
	assume  []string
	explain string
	start   time.Time
}

func newReport(prop, tier string, p *Prog) *Report {
	return &Report{prop: prop, p: p, tier: tier, obs: map[string]*Obligation{}, floors: map[string]int{}, funcs: map[string]bool{}, start: time.Now()}
}

// ob records that an instance of a rule was decided. An instance met on
// several paths holds only if it holds on all of them.
func (r *Report) ob(rule, construct string, ok bool, pos, format string, a ...any) {
	k := rule + "|" + construct
	o := r.obs[k]
	if o == nil {
		o = &Obligation{Rule: rule, Construct: construct, OK: true, Pos: pos}
		r.obs[k] = o
		r.order = append(r.order, k)
	}
	if !ok && o.OK {
		o.OK = false
		o.Pos = pos
		o.Msg = fmt.Sprintf(format, a...)
	}
}

func (r *Report) bad(rule, construct, pos, format string, a ...any) {
	r.ob(rule, construct, false, pos, format, a...)
}

// floor demands at least n instances of a rule.
func (r *Report) floor(rule string, n int) { r.floors[rule] = n }

// missing reports an anchor that could not be found.
func (r *Report) missing(what string) {
	r.bad("anchor", what, "-", "cannot find %s in the source, the property cannot be decided", what)
}

// done takes over the result of a walk.
func (r *Report) done(x *Exec, what string) {
	r.paths += x.paths
	r.steps += x.steps
	for f := range x.visited {
		r.funcs[r.p.fname(f)] = true
	}
	r.ob("walk", what, x.fail == "", "-", "undecided: %s", x.fail)
}

func (r *Report) count(rule string) int {
	n := 0
	for _, o := range r.obs {
		if o.Rule == rule {
			n++
		}
	}
	return n
}

type known struct{ prop, key, text string }

func readKnown(file string) []known {
	f, err := os.Open(file)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var k known
		// known: property=C10 key=rule|construct :: text
		l, k.text, _ = strings.Cut(strings.TrimSpace(strings.TrimPrefix(l, "known:")), " :: ")
		pr, key, _ := strings.Cut(l, " ")
		k.prop = strings.TrimPrefix(pr, "property=")
		k.key = strings.TrimPrefix(strings.TrimSpace(key), "key=")
		out = append(out, k)
	}
	return out
}

// finish prints the verdict, writes the evidence and returns the exit code.
func (r *Report) finish(root string) int {
	for rule, n := range r.floors {
		if c := r.count(rule); c < n {
			r.bad("floor", rule, "-", "only %d instances of rule %q were found, at least %d are expected", c, rule, n)
		}
	}
	kn := map[string]known{}
	for _, k := range readKnown(filepath.Join(root, "known-findings.txt")) {
		if k.prop == r.prop {
			kn[k.key] = k
		}
	}
	var bad []*Obligation
	discharged, total, listed := 0, 0, 0
	perRule := map[string]int{}
	var samples []any
	sampled := map[string]int{}
	for _, k := range r.order {
		o := r.obs[k]
		total++
		perRule[o.Rule]++
		if o.OK {
			discharged++
			if sampled[o.Rule] < 3 {
				sampled[o.Rule]++
				samples = append(samples, map[string]string{"rule": o.Rule, "construct": o.Construct, "at": o.Pos, "verdict": "holds"})
			}
			continue
		}
		if f, ok := kn[k]; ok {
			listed++
			fmt.Printf("KNOWN-FINDING: property=%s %s [%s] %s\n", r.prop, k, o.Pos, f.text)
			continue
		}
		bad = append(bad, o)
	}
	var lines []string
	for _, o := range bad {
		lines = append(lines, fmt.Sprintf("%s: rule %s, instance %s: %s", o.Pos, o.Rule, o.Construct, o.Msg))
	}
	ev := filepath.Join(root, "evidence")
	os.MkdirAll(ev, 0o755)
	replay := filepath.Join(ev, r.prop+".violations.txt")
	if len(bad) > 0 {
		os.WriteFile(replay, []byte(strings.Join(lines, "\n")+"\n"), 0o644)
		for _, l := range lines {
			fmt.Println(l)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
	} else {
		os.Remove(replay)
		fmt.Printf("%s: %d obligations, %d discharged, %d known findings, %d paths, %d functions walked\n", r.prop, total, discharged, listed, r.paths, len(r.funcs))
	}
	var fs []string
	for f := range r.funcs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	nsrc := 0
	if r.p != nil {
		nsrc = len(r.p.funcs)
	}
	expl := r.explain
	if expl == "" {
		expl = "static analysis of the type checked program and its SSA form; the rules are described in DESIGN.md"
	}
	out := map[string]any{
		"property": r.prop,
		"tier":     r.tier,
		"seed":     seed(),
		"level":    "other",
		"coverage": map[string]any{
			"explanation":          expl,
			"obligations":          total,
			"discharged":           discharged,
			"known_findings":       listed,
			"obligations_per_rule": perRule,
			"paths_walked":         r.paths,
			"instructions_walked":  r.steps,
			"functions_walked":     fs,
			"functions_in_program": nsrc,
			"samples":              samples,
			"notes":                r.notes,
		},
		"wall_s":      time.Since(r.start).Seconds(),
		"assumptions": append([]string{"packages unsafe, reflect and cgo are not used to change state; the standard library behaves as documented"}, r.assume...),
		"violations":  lines,
	}
	if lines == nil {
		out["violations"] = []string{}
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(filepath.Join(ev, r.prop+".json"), append(b, '\n'), 0o644)
	if len(bad) > 0 {
		return 1
	}
	return 0
}

func seed() int {
	var s int
	fmt.Sscan(os.Getenv("VERIF_SEED"), &s)
	return s
}
