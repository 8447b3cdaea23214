package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func debugMain(p *Prog, args []string) {
	if args[0] == "cycles" {
		debugCycles(p)
		return
	}
	if args[0] == "writes" {
		h := newHeap(p)
		for _, f := range p.funcs {
			if f.Name() == args[1] {
				for k, w := range h.writes(f) {
					fmt.Println(k, w.root, w.kind)
				}
			}
		}
		return
	}
	if args[0] == "ssa" {
		for _, f := range p.funcs {
			if strings.Contains(p.fname(f), args[1]) {
				f.WriteTo(os.Stdout)
			}
		}
		return
	}
	if args[0] == "walk" {
		for _, f := range p.funcs {
			if p.fname(f) != args[1] {
				continue
			}
			h := Hooks{}
			if len(args) > 2 {
				h.Opaque = func(g *ssa.Function) bool {
					for _, a := range args[2:] {
						if strings.Contains(p.fname(g), a) {
							return true
						}
					}
					return false
				}
			}
			x := newExec(p, h)
			x.h.BackEdge = func(x *Exec, fr *Frame, lc *loopCtx, next map[*ssa.Phi]*Term) {
				fmt.Printf("BACK %s loop%d\n", p.fname(fr.fn), lc.seq)
				for l, v := range lc.recs[len(lc.recs)-1].lits {
					fmt.Printf("    %v: %s\n", v, l)
				}
			}
			x.h.Panic = func(x *Exec, fr *Frame, in ssa.Instruction, what string) {
				fmt.Println("PANIC", p.fname(fr.fn), what)
			}
			x.h.Assert = func(x *Exec, fr *Frame, in *ssa.TypeAssert, v *Term) {
				fmt.Println("ASSERT", p.fname(fr.fn), in, v)
			}
			x.h.Exit = func(x *Exec, fr *Frame, in ssa.Instruction, name string, args []*Term) {
				fmt.Println("EXIT", name, args)
			}
			x.run(f, x.params(f), func(fr *Frame, res *Term) {
				fmt.Println("RETURN", res)
				for l, v := range x.lits {
					fmt.Printf("    %v: %s\n", v, l)
				}
			})
			fmt.Println("steps", x.steps, "paths", x.paths, "fail", x.fail)
		}
	}
}
