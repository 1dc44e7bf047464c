package main

import (
	"fmt"
	"sort"
	"strings"
)

// Small-model decision of level and index constraints: terms over level symbols and loop indices are
// evaluated under every assignment of small values that satisfies the known facts.

func baseAtoms(t *Term, out map[*Atom]bool) bool {
	if t == nil || t.isF || t.bigc {
		return false
	}
	for _, p := range t.ts {
		if len(p.a.args) == 0 {
			out[p.a] = true
			continue
		}
		switch p.a.op {
		case "min", "max", "div", "rem", "mul", "lt", "le", "eq", "not", "ite":
		default:
			return false
		}
		for _, x := range p.a.args {
			if !baseAtoms(x, out) {
				return false
			}
		}
	}
	return true
}

func evalTerm(t *Term, env map[*Atom]int64) (int64, bool) {
	r := t.c
	for _, p := range t.ts {
		var v int64
		if len(p.a.args) == 0 {
			x, ok := env[p.a]
			if !ok {
				return 0, false
			}
			v = x
		} else {
			var as [6]int64
			if len(p.a.args) > 6 {
				return 0, false
			}
			if p.a.op == "ite" {
				c, ok := evalTerm(p.a.args[0], env)
				if !ok {
					return 0, false
				}
				k := 1
				if c == 0 {
					k = 2
				}
				v, ok = evalTerm(p.a.args[k], env)
				if !ok {
					return 0, false
				}
				r += v * p.k
				continue
			}
			for i, x := range p.a.args {
				y, ok := evalTerm(x, env)
				if !ok {
					return 0, false
				}
				as[i] = y
			}
			switch p.a.op {
			case "min":
				v = as[0]
				for i := 1; i < len(p.a.args); i++ {
					if as[i] < v {
						v = as[i]
					}
				}
			case "max":
				v = as[0]
				for i := 1; i < len(p.a.args); i++ {
					if as[i] > v {
						v = as[i]
					}
				}
			case "div":
				if as[1] == 0 {
					return 0, false
				}
				v = as[0] / as[1]
			case "rem":
				if as[1] == 0 {
					return 0, false
				}
				v = as[0] % as[1]
			case "mul":
				v = as[0] * as[1]
			case "lt":
				v = b2i(as[0] < as[1])
			case "le":
				v = b2i(as[0] <= as[1])
			case "eq":
				v = b2i(as[0] == as[1])
			case "not":
				v = 1 - as[0]
			default:
				return 0, false
			}
		}
		r += v * p.k
	}
	return r, true
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

// levelAtom tells whether an atom is a level, a length or a loop index, and its range.
func levelAtom(op string) (lo, hi int64, ok bool) {
	switch {
	case op == "lenQ":
		return 4, 4, true
	case op == "lenP":
		return 2, 2, true
	case op == "lenT", op == "lenR":
		return 3, 3, true
	case strings.HasPrefix(op, "lvl:"):
		return 0, 3, true
	case strings.HasPrefix(strings.ToLower(op), "level") && !strings.Contains(op, "."):
		return 0, 3, true
	case len(op) > 1 && op[0] == 'i' && op[1] >= '0' && op[1] <= '9':
		return 0, 4, true
	}
	return 0, 0, false
}

// satisfiable decides whether the conjunction of  cs[i] <= 0  is consistent with the facts for some small
// assignment. decided is false when the constraint mentions anything but levels and loop indices.
func satisfiable(f *Facts, cs ...*Term) (sat, decided bool) {
	atoms := map[*Atom]bool{}
	for _, c := range cs {
		if c == nil || !baseAtoms(c, atoms) {
			return false, false
		}
	}
	for a := range atoms {
		if _, _, ok := levelAtom(a.op); !ok {
			return false, false
		}
	}
	// relevant facts: those sharing atoms, transitively
	var lin []*Term
	for x := f; x != nil; x = x.up {
		if x.lin != nil {
			lin = append(lin, x.lin)
		}
	}
	var use []*Term
	used := map[int]bool{}
	ignored := false
	for changed := true; changed && len(atoms) < 8; {
		changed = false
		for i, l := range lin {
			if used[i] {
				continue
			}
			as := map[*Atom]bool{}
			if !baseAtoms(l, as) {
				for a := range as {
					if atoms[a] {
						ignored = true
					}
				}
				continue
			}
			share, okAll := false, true
			for a := range as {
				if atoms[a] {
					share = true
				}
				if _, _, ok := levelAtom(a.op); !ok {
					okAll = false
				}
			}
			if share && !okAll {
				// the fact involves something else: it may exclude assignments, so nothing can be concluded
				ignored = true
				continue
			}
			if share {
				n := len(atoms)
				for a := range as {
					if !atoms[a] {
						n++
					}
				}
				if n > 8 {
					ignored = true
					continue
				}
				for a := range as {
					atoms[a] = true
				}
				use = append(use, l)
				used[i] = true
				changed = true
			}
		}
	}
	var as []*Atom
	for a := range atoms {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].op < as[j].op })
	env := map[*Atom]int64{}
	all := append(append([]*Term{}, cs...), use...)
	steps := 0
	var rec func(i int) bool
	rec = func(i int) bool {
		steps++
		if steps > 200000 {
			return false
		}
		if i == len(as) {
			for _, c := range all {
				v, ok := evalTerm(c, env)
				if !ok || v > 0 {
					return false
				}
			}
			return true
		}
		lo, hi, _ := levelAtom(as[i].op)
		for v := lo; v <= hi; v++ {
			env[as[i]] = v
			if rec(i + 1) {
				return true
			}
		}
		delete(env, as[i])
		return false
	}
	s := rec(0)
	if steps > 200000 {
		return false, false
	}
	if s && ignored {
		return false, false
	}
	return s, true
}

// rowRel relates row index sel to extent lvl: 1 within, -1 beyond, 0 either, 2 undecided.
func rowRel(sel, lvl *Term, f *Facts) int {
	r := rowRel0(sel, lvl, f)
	if domRel {
		fmt.Printf("REL %s in %s = %d:", tkey(sel), tkey(lvl), r)
		for x := f; x != nil; x = x.up {
			if x.lin != nil {
				fmt.Printf(" %s<=0;", x.lin)
			}
		}
		fmt.Println()
	}
	return r
}
func rowRel0(sel, lvl *Term, f *Facts) int {
	if sel == nil || lvl == nil {
		return 2
	}
	if leq(sel, lvl, f) {
		return 1
	}
	if leq(tAdd(lvl, tConst(1)), sel, f) {
		return -1
	}
	over, d1 := satisfiable(f, tAdd(tSub(lvl, sel), tConst(1)))
	if !d1 {
		return 2
	}
	if !over {
		return 1
	}
	in, d2 := satisfiable(f, tSub(sel, lvl))
	if d2 && !in {
		return -1
	}
	return 0
}

// equalTerms decides equality of two level terms: 1 equal, 0 different for some admissible levels, 2 undecided.
func equalTerms(a, b *Term, f *Facts) int {
	if a == nil || b == nil {
		return 2
	}
	if a == b || leq(a, b, f) && leq(b, a, f) {
		return 1
	}
	lt, d1 := satisfiable(f, tAdd(tSub(a, b), tConst(1)))
	if d1 && lt {
		return 0
	}
	gt, d2 := satisfiable(f, tAdd(tSub(b, a), tConst(1)))
	if d2 && gt {
		return 0
	}
	if d1 && d2 {
		return 1
	}
	return 2
}
