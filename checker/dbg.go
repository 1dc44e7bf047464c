package main

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func ringCalls(P *Prog) {
	m := map[string]map[string]int{}
	for f := range ssautil.AllFunctions(P.Prog) {
		if !inRepo(f) || f.Pkg == nil {
			continue
		}
		pn := f.Pkg.Pkg.Name()
		if pn == "ring" || pn == "utils" || pn == "main" {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil && g.Pkg != nil && g.Pkg.Pkg.Name() == "ring" {
						n := fname(g)
						if m[n] == nil {
							m[n] = map[string]int{}
						}
						m[n][pn]++
					}
				}
			}
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k, strings.TrimPrefix(fmt.Sprint(m[k]), "map"))
	}
}
