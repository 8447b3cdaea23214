// Command fbdlcheck decides properties of go-fbdl from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

type check struct {
	run func(p *Prog, r *Report)
}

var checks = map[string]func(p *Prog, r *Report){}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	root := flag.String("root", "/verif", "where evidence and known findings live")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	debug.SetMaxStack(8 << 30)
	debug.SetGCPercent(400)
	start := time.Now()
	code := 0
	var p *Prog
	var lerr error
	names := flag.Args()
	if len(names) == 1 && names[0] == "all" {
		names = nil
		for n := range checks {
			names = append(names, n)
		}
		sort.Strings(names)
	}
	if len(names) > 0 && names[0] == "debug" {
		p, lerr = load(*repo)
		if lerr != nil {
			fmt.Println(lerr)
			os.Exit(1)
		}
		debugMain(p, names[1:])
		return
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				lerr = fmt.Errorf("loading panicked: %v", e)
			}
		}()
		p, lerr = load(*repo)
	}()
	for _, n := range names {
		r := newReport(n, *tier, p)
		if lerr != nil {
			r.bad("load", "program", "-", "the program cannot be analysed: %s", strings.ReplaceAll(lerr.Error(), "\n", " "))
		} else if f := checks[n]; f == nil {
			r.bad("load", "check", "-", "no such check %s", n)
		} else {
			doneCh := make(chan bool, 1)
			go func() {
				defer func() {
					if e := recover(); e != nil {
						r.bad("internal", "panic", "-", "the analysis panicked: %v\n%s", e, debug.Stack())
					}
					doneCh <- true
				}()
				f(p, r)
			}()
			select {
			case <-doneCh:
			case <-time.After(700 * time.Second):
				r2 := newReport(n, *tier, p)
				r2.bad("walk", "time", "-", "undecided: the analysis did not end within 700 s")
				r = r2
			}
		}
		r.start = start
		if c := r.finish(*root); c != 0 {
			code = c
		}
		start = time.Now()
	}
	os.Exit(code)
}
