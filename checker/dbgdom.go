package main

import (
	"fmt"
	"os"
	"strings"
)

var dbgLast = map[string]string{}

func (D *Dom) dbgCells(I *Interp, st *State, where string) {
	if domTrace == "" {
		return
	}
	seen := map[Key]bool{}
	for h := st.h; h != nil; h = h.up {
		for k := range h.m {
			if seen[k] || !strings.Contains(k.o.name, domTrace) {
				continue
			}
			seen[k] = true
			v, _ := st.h.get(k)
			s := valKey(v)
			if n, ok := v.(*Num); ok {
				if a, ok := n.A.(*CA); ok {
					s = a.str()
				}
			}
			kk := k.o.name + k.p
			if dbgLast[kk] != s {
				dbgLast[kk] = s
				fmt.Printf("CELL at %s: %s = %s\n", where, kk, s)
			}
		}
	}
}

var domCalls = os.Getenv("DOM_CALL") != ""
